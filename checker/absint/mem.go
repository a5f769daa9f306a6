package absint

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// Effect is something a path does that is visible outside its own values.
type Effect struct {
	Kind string // "call", "loop", "opaque", "may-nil", "may-oob", "panic", "undecided", "store", "mapstore"
	Name string // callee
	Args []*Term
	Res  []*Term
	Pos  string
	Fn   string // function containing the construct
	Loop *Loop
	Ver  string          // version of what the call may have changed
	NF   int             // number of literals known when it happened
	Mem  map[*Term]*Term // memory cells when it happened (calls only)
	St   *State          // snapshot of the state before the effect (calls only)
}

// State is one abstract state: memory, map contents, versions of summarised regions, facts and effects.
type State struct {
	Mem     map[*Term]*Term // leaf address -> value
	Maps    map[*Term]*Term // map identity -> contents
	Ver     map[string]string
	F       *Facts
	Effects []*Effect
	alias   map[*Term]*Term
	outer   *State // state in which the loop of this iteration was entered
}

func newState() *State {
	return &State{Mem: map[*Term]*Term{}, Maps: map[*Term]*Term{}, Ver: map[string]string{}, F: newFacts()}
}

func (s *State) clone() *State {
	n := &State{Mem: make(map[*Term]*Term, len(s.Mem)), Maps: make(map[*Term]*Term, len(s.Maps)), Ver: make(map[string]string, len(s.Ver)), F: s.F.clone(),
		Effects: s.Effects[:len(s.Effects):len(s.Effects)], outer: s.outer}
	for k, v := range s.Mem {
		n.Mem[k] = v
	}
	for k, v := range s.Maps {
		n.Maps[k] = v
	}
	for k, v := range s.Ver {
		n.Ver[k] = v
	}
	return n
}

// Clone copies the state.
func (s *State) Clone() *State { return s.clone() }

// split asks the instruction loop to fork on a condition.
type split struct{ cond *Term }

// decide decides cond, or forks the path on it.
func (in *Interp) decide(st *State, cond *Term) bool {
	switch st.F.Decide(in.U, cond) {
	case True:
		return true
	case False:
		return false
	}
	panic(split{cond})
}

// rootOf splits an address into the pointer it is based on and the field path from there.
func rootOf(addr *Term) (root *Term, path string) {
	var p []string
	for addr.Op == OFieldAddr {
		p = append(p, fmt.Sprint(addr.Idx))
		addr = addr.Args[0]
	}
	for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
		p[i], p[j] = p[j], p[i]
	}
	return addr, strings.Join(p, ".")
}

// typeVerKey names the summarised region of all objects of the type that root points to.
func typeVerKey(root *Term, path string) string {
	return "T:" + typeKey(derefT(root.Typ)) + "/" + path
}

func (in *Interp) version(st *State, addr *Term) string {
	root, path := rootOf(addr)
	var vs []string
	if v := st.Ver[typeVerKey(root, path)]; v != "" && root.Op != OAlloc && root.Op != OGlobal {
		vs = append(vs, v)
	}
	if root.Op == OAlloc || root.Op == OGlobal {
		if v := st.Ver["A:"+root.Aux]; v != "" {
			vs = append(vs, v)
		}
	}
	if root.Op == OIndexAddr {
		if v := st.Ver[fmt.Sprintf("L:%d/%s", root.Args[0].ID, path)]; v != "" {
			vs = append(vs, v)
		}
		if v := st.Ver[fmt.Sprintf("L:%d", root.Args[0].ID)]; v != "" {
			vs = append(vs, v)
		}
	}
	if root.Op != OAlloc && root.Op != OGlobal {
		if v := st.Ver[fmt.Sprintf("P:%d", root.ID)]; v != "" {
			vs = append(vs, v)
		}
	}
	return strings.Join(vs, ",")
}

// Init makes the value initially found at addr.
func (in *Interp) Init(addr *Term, typ types.Type, ver string) *Term {
	return in.U.mk(Term{Op: OInit, Aux: ver, Args: []*Term{addr}, Typ: typ})
}

// Load reads a value of type typ at addr.
func (in *Interp) Load(st *State, addr *Term, typ types.Type) *Term {
	if s, ok := typ.Underlying().(*types.Struct); ok {
		if s.NumFields() == 0 {
			return in.U.Struct(typ)
		}
		fs := make([]*Term, s.NumFields())
		for i := range fs {
			fs[i] = in.Load(st, in.U.FieldAddr(addr, i, s.Field(i).Type()), s.Field(i).Type())
		}
		return in.U.Struct(typ, fs...)
	}
	if a, ok := typ.Underlying().(*types.Array); ok && a.Len() <= 64 {
		es := make([]*Term, a.Len())
		for i := range es {
			es[i] = in.Load(st, in.elemAddr(addr, in.U.Int(int64(i)), a.Elem()), a.Elem())
		}
		return in.U.List(typ, es...)
	}
	addr = in.resolveAddr(st, addr)
	if v, ok := st.Mem[addr]; ok {
		return v
	}
	// other cells of the same list at possibly equal indices
	root, path := rootOf(addr)
	if root.Op == OIndexAddr {
		for _, c := range in.sortedCells(st) {
			r2, p2 := rootOf(c)
			if r2.Op == OIndexAddr && r2.Args[0] == root.Args[0] && p2 == path && r2 != root {
				if in.decide(st, in.U.Eq(r2.Args[1], root.Args[1])) {
					return st.Mem[c]
				}
			}
		}
	}
	return in.defaultAt(st, addr, typ)
}

func (in *Interp) sortedCells(st *State) []*Term {
	var cs []*Term
	for c := range st.Mem {
		if r, _ := rootOf(c); r.Op == OIndexAddr {
			cs = append(cs, c)
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].ID > cs[j].ID })
	return cs
}

// resolveAddr resolves element addresses in concatenations to the segment they are in.
func (in *Interp) resolveAddr(st *State, addr *Term) *Term {
	switch addr.Op {
	case OFieldAddr:
		b := in.resolveAddr(st, addr.Args[0])
		if b != addr.Args[0] {
			return in.U.FieldAddr(b, addr.Idx, derefT(addr.Typ))
		}
	case OIndexAddr:
		l, i := addr.Args[0], addr.Args[1]
		if l.Op == OCat {
			off := in.U.Int(0)
			for k, seg := range l.Args {
				rel := in.U.Add(i, off, -1)
				if k == len(l.Args)-1 || in.decide(st, in.U.Less(rel, in.U.Len(seg), true)) {
					return in.resolveAddr(st, in.U.IndexAddr(seg, rel, derefT(addr.Typ)))
				}
				off = in.U.Add(off, in.U.Len(seg), 1)
			}
		}
	}
	return addr
}

// elemAddr is the address of an element of the array at addr.
func (in *Interp) elemAddr(addr, i *Term, et types.Type) *Term {
	return in.U.IndexAddr(in.arrayList(addr), i, et)
}

// arrayList is the list (full slice) backed by the array at addr.
func (in *Interp) arrayList(addr *Term) *Term {
	a := derefT(addr.Typ).Underlying().(*types.Array)
	return in.U.mk(Term{Op: OMake, Aux: "arr:" + fmt.Sprint(addr.ID), Args: []*Term{in.U.Int(a.Len())}, Typ: types.NewSlice(a.Elem()), Idx: 1})
}

// defaultAt is the value at addr if no cell covers it.
func (in *Interp) defaultAt(st *State, addr *Term, typ types.Type) *Term {
	ver := in.version(st, addr)
	if ver != "" {
		return in.Init(addr, typ, ver)
	}
	if v, ok := in.initCells[addr]; ok && !in.inInit {
		if r, _ := rootOf(addr); r.Op == OAlloc {
			return v
		}
	}
	switch addr.Op {
	case OAlloc:
		return in.Zero(typ)
	case OGlobal:
		return in.globalInit(addr, typ)
	case OFieldAddr:
		root, path := rootOf(addr)
		switch root.Op {
		case OAlloc:
			return in.Zero(typ)
		case OGlobal:
			return in.globalInit(addr, typ)
		case OIndexAddr:
			v := in.elemDefault(st, root)
			if v == nil {
				return in.Init(addr, typ, "")
			}
			t := derefT(root.Typ)
			for _, p := range strings.Split(path, ".") {
				var i int
				fmt.Sscan(p, &i)
				s, ok := t.Underlying().(*types.Struct)
				if !ok {
					return in.Init(addr, typ, "")
				}
				t = s.Field(i).Type()
				v = in.U.Field(v, i, t)
			}
			return v
		}
	case OIndexAddr:
		if v := in.elemDefault(st, addr); v != nil {
			return v
		}
	}
	return in.Init(addr, typ, "")
}

// elemDefault is the value of a list element as given by the list term, or nil if that is just the initial memory.
func (in *Interp) elemDefault(st *State, addr *Term) *Term {
	l, i := addr.Args[0], addr.Args[1]
	switch l.Op {
	case OMake:
		if l.Idx == 1 {
			// array: backed by an object
			if in.arrayUnknown(l) {
				return nil
			}
		}
		return in.Zero(derefT(addr.Typ))
	case OList:
		es := l.Args
		if ps := in.permuted(st, l); ps != nil {
			es = ps
		}
		if k, ok := i.IntVal(); ok && 0 <= k && int(k) < len(es) {
			return es[k]
		}
		for k := range l.Args {
			if in.decide(st, in.U.Eq(i, in.U.Int(int64(k)))) {
				return es[k]
			}
		}
	}
	return nil
}

func (in *Interp) arrayUnknown(l *Term) bool { return false }

// Zero is the zero value of a type.
func (in *Interp) Zero(t types.Type) *Term {
	switch x := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsBoolean != 0:
			return in.U.Bool(false)
		case x.Info()&types.IsInteger != 0:
			return in.U.Int(0)
		case x.Info()&types.IsString != 0:
			return in.U.Str("")
		case x.Kind() == types.UntypedNil:
			return in.U.Nil()
		}
		return in.U.App("zero:"+x.Name(), t)
	case *types.Struct:
		fs := make([]*Term, x.NumFields())
		for i := range fs {
			fs[i] = in.Zero(x.Field(i).Type())
		}
		return in.U.Struct(t, fs...)
	case *types.Array:
		if x.Len() <= 64 {
			es := make([]*Term, x.Len())
			for i := range es {
				es[i] = in.Zero(x.Elem())
			}
			return in.U.List(t, es...)
		}
		return in.U.App("zeroarray", t)
	}
	return in.U.Nil()
}

// Store writes val at addr.
func (in *Interp) Store(st *State, addr, val *Term, typ types.Type) {
	if s, ok := typ.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			in.Store(st, in.U.FieldAddr(addr, i, ft), in.U.Field(val, i, ft), ft)
		}
		return
	}
	if a, ok := typ.Underlying().(*types.Array); ok && a.Len() <= 64 {
		for i := int64(0); i < a.Len(); i++ {
			e := in.U.App("elem", a.Elem(), val, in.U.Int(i))
			if val.Op == OList {
				e = val.Args[i]
			}
			in.Store(st, in.elemAddr(addr, in.U.Int(i), a.Elem()), e, a.Elem())
		}
		return
	}
	addr = in.resolveAddr(st, addr)
	root, path := rootOf(addr)
	if root.Op == OIndexAddr {
		if l := root.Args[0]; l.Op == OList || l.Op == OCat {
			in.fail("an element of a list made by append is overwritten: %s", l)
		}
		// decide aliasing with other cells of the list first
		for _, c := range in.sortedCells(st) {
			r2, p2 := rootOf(c)
			if r2.Args[0] == root.Args[0] && p2 == path && r2 != root {
				if in.decide(st, in.U.Eq(r2.Args[1], root.Args[1])) {
					st.Mem[c] = val
					return
				}
			}
		}
	}
	st.Mem[addr] = val
}

// Havoc forgets the object that p points to.
func (in *Interp) Havoc(st *State, p *Term, why string) {
	root, _ := rootOf(p)
	v := why + "#" + in.U.Fresh()
	for c := range st.Mem {
		if under(c, p) {
			delete(st.Mem, c)
		}
	}
	switch root.Op {
	case OAlloc, OGlobal:
		if root == p {
			st.Ver["A:"+root.Aux] = v
			return
		}
		// part of an object: materialise unknown leaves
		in.fillUnknown(st, p, derefT(p.Typ), v)
	default:
		in.fillUnknown(st, p, derefT(p.Typ), v)
	}
}

func (in *Interp) fillUnknown(st *State, p *Term, t types.Type, v string) {
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			in.fillUnknown(st, in.U.FieldAddr(p, i, s.Field(i).Type()), s.Field(i).Type(), v)
		}
		return
	}
	st.Mem[p] = in.Init(p, t, v)
}

func under(c, p *Term) bool {
	for {
		if c == p {
			return true
		}
		if c.Op == OFieldAddr || c.Op == OIndexAddr {
			c = c.Args[0]
			continue
		}
		return false
	}
}

// Contents gets the contents of a map.
func (in *Interp) Contents(st *State, m *Term) *Term {
	if m.IsNil() {
		return in.U.mk(Term{Op: OMEmpty})
	}
	if c, ok := st.Maps[m]; ok {
		return c
	}
	ver := st.Ver["M:"+typeKey(m.Typ)]
	if m.Op == OMap {
		if c, ok := in.initMaps[m]; ok && !in.inInit {
			return c
		}
		return in.U.mk(Term{Op: OMEmpty})
	}
	return in.U.mk(Term{Op: OMInit, Args: []*Term{m}, Aux: ver, Typ: m.Typ})
}

// mapLookup looks key up in contents, forking on key equality.
func (in *Interp) mapLookup(st *State, c, key *Term, vt types.Type) (val *Term, ok *Term) {
	for {
		switch c.Op {
		case OMEmpty:
			return in.Zero(vt), in.U.Bool(false)
		case OMStore:
			if in.decide(st, in.U.Eq(c.Args[1], key)) {
				return c.Args[2], in.U.Bool(true)
			}
			c = c.Args[0]
			continue
		case OMDel:
			if in.decide(st, in.U.Eq(c.Args[1], key)) {
				return in.Zero(vt), in.U.Bool(false)
			}
			c = c.Args[0]
			continue
		}
		has := in.U.mk(Term{Op: OMHas, Args: []*Term{c, key}, Typ: types.Typ[types.Bool]})
		if !in.decide(st, has) {
			return in.Zero(vt), in.U.Bool(false)
		}
		return in.U.mk(Term{Op: OMGet, Args: []*Term{c, key}, Typ: vt}), in.U.Bool(true)
	}
}

func (in *Interp) mapStore(c, k, v *Term) *Term {
	// writing an entry again: nothing else can have the same key
	for x := c; k.Op == OConst && x.Op == OMStore && x.Args[1].Op == OConst; x = x.Args[0] {
		if x.Args[1] == k {
			return in.U.mk(Term{Op: OMStore, Args: []*Term{in.mapDrop(c, x), k, v}, Typ: c.Typ})
		}
	}
	return in.U.mk(Term{Op: OMStore, Args: []*Term{c, k, v}, Typ: c.Typ})
}

// mapDrop takes one write out of a chain of writes with constant keys.
func (in *Interp) mapDrop(c, x *Term) *Term {
	if c == x {
		return c.Args[0]
	}
	return in.U.mk(Term{Op: OMStore, Args: []*Term{in.mapDrop(c.Args[0], x), c.Args[1], c.Args[2]}, Typ: c.Typ})
}
