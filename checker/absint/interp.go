package absint

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Config sets up an interpreter.
type Config struct {
	Prog     *ssa.Program
	InModule func(pkg string) bool       // package is analysed (calls are inlined)
	Opaque   func(fn *ssa.Function) bool // calls are recorded, not inlined
	// Pure functions depend on nothing but their arguments and change nothing; for Commutes, the order of arguments does not matter either.
	// NilUnit functions give (x, nil) for (nil, x) and (x, nil).
	Pure, Commutes, NilUnit map[string]bool
	// ReadOnly functions change nothing that their arguments point to.
	ReadOnly  map[string]bool
	Impls     func(iface types.Type, m *types.Func) []types.Type // implementations to fork symbolic interfaces over
	MaxPaths  int
	MaxDepth  int
	NilChecks bool // record dereferences that cannot be shown safe
	ErrEvents bool // record every call that may return an error
	RepoDir   string
	NoMerge   bool // keep outcomes apart that differ only in what is known
	Known     bool // shapes are known, see known.go
	Backwards bool // with Known: maps are stepped through backwards
	// Sample gives the value of a term, with samples for symbolic names (with Known, for sorting).
	Sample func(t *Term) (any, error)
	// Hook may give the results of a call outside the module.
	Hook func(name string, args []*Term) ([]*Term, bool)
	// Holds says which terms are not nil because of how the program keeps its data (with NilChecks).
	Holds func(f *Facts, t *Term) bool
	// Kept gives the part of a value that may be nil, although the program's data never have nil there, or nil.
	Kept func(st *State, v *Term, to types.Type) *Term
	// Needs gives an argument that may be nil, although the function that is called (and not interpreted) needs it, or nil.
	Needs func(st *State, name string, args []*Term) *Term
}

// Interp is an abstract interpreter.
type Interp struct {
	U     *Universe
	C     Config
	loops map[*ssa.Function]*loopForest
	done  map[string]*Loop // loops by their ID
	stack []*ssa.Function
	paths int
	glob  map[*types.Package]*State
	Stats struct {
		Funcs                       map[string]int
		Paths, Loops, Calls, Instrs int
	}
	extFn     map[string]extern
	inInit    bool
	initCells map[*Term]*Term // what package initialisation put where
	initMaps  map[*Term]*Term
	Undecided []string
	Certain   []*Effect // crashes that end a path
}

func New(c Config) *Interp {
	if c.MaxPaths == 0 {
		c.MaxPaths = 20000
	}
	if c.MaxDepth == 0 {
		c.MaxDepth = 60
	}
	in := &Interp{U: NewUniverse(), C: c, loops: map[*ssa.Function]*loopForest{}, glob: map[*types.Package]*State{}}
	in.U.commutes = c.Commutes
	in.done = map[string]*Loop{}
	in.U.visited = in.visited
	in.U.holds = c.Holds
	in.initCells, in.initMaps = map[*Term]*Term{}, map[*Term]*Term{}
	in.Stats.Funcs = map[string]int{}
	in.extFn = externs
	return in
}

// Outcome is one way a function may end.
type Outcome struct {
	Kind string // "return", "panic", "exit"
	Res  []*Term
	St   *State
}

// Fail is raised when the analysis cannot decide something.
type Fail struct{ Msg string }

func (in *Interp) fail(format string, a ...any) { panic(Fail{fmt.Sprintf(format, a...)}) }

// Mark is a serial number: everything made later has a higher one.
func (in *Interp) Mark() int { return serial(in.U.Fresh()) }

// NewState makes an empty state.
func (in *Interp) NewState() *State { return newState() }

// Run interprets fn from the given state; a failure of the analysis is returned as an error.
func (in *Interp) Run(st *State, fn *ssa.Function, args ...*Term) (out []Outcome, err error) {
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(Fail); ok {
				err = fmt.Errorf("%s: %s", fn, f.Msg)
				return
			}
			if os.Getenv("ABSINT_DEBUG") != "" {
				panic(r)
			}
			err = fmt.Errorf("%s: analysis crashed: %v", fn, r)
		}
	}()
	in.paths = 0
	in.stack = nil
	if fn == nil || fn.Blocks == nil {
		return nil, fmt.Errorf("no body for %v", fn)
	}
	return in.execFunc(st, fn, args, nil), nil
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	defers []deferred
}

type deferred struct {
	call *ssa.CallCommon
	fn   *Term
	args []*Term
	pos  token.Pos
}

func (f *frame) clone() *frame {
	n := &frame{fn: f.fn, env: make(map[ssa.Value]*Term, len(f.env)), defers: f.defers[:len(f.defers):len(f.defers)]}
	for k, v := range f.env {
		n.env[k] = v
	}
	return n
}

// exit is a way out of a region of blocks.
type exit struct {
	kind string // "return", "panic", "back", "edge", "exit"
	to   *ssa.BasicBlock
	from *ssa.BasicBlock
	fr   *frame
	st   *State
	res  []*Term
}

func (in *Interp) execFunc(st *State, fn *ssa.Function, args, binds []*Term) []Outcome {
	if len(in.stack) > in.C.MaxDepth {
		in.fail("call depth")
	}
	in.stack = append(in.stack, fn)
	defer func() { in.stack = in.stack[:len(in.stack)-1] }()
	in.Stats.Funcs[fn.String()]++
	mark := serial(in.U.Fresh())
	fr := &frame{fn: fn, env: map[ssa.Value]*Term{}}
	if len(args) != len(fn.Params) {
		in.fail("arguments of %s: got %d want %d", fn, len(args), len(fn.Params))
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		if i < len(binds) {
			fr.env[v] = binds[i]
		}
	}
	var outs []Outcome
	for _, e := range in.region(fn, nil, []arrival{{to: fn.Blocks[0], fr: fr, st: st}}, nil) {
		switch e.kind {
		case "return":
			outs = append(outs, Outcome{"return", e.res, e.st})
		case "panic", "exit":
			outs = append(outs, Outcome{e.kind, nil, e.st})
		default:
			in.fail("unexpected %s exit from %s", e.kind, fn)
		}
	}
	if in.inInit || in.C.NoMerge {
		return outs
	}
	return in.merge(outs, mark)
}

// arrival is control arriving at block to from block from.
type arrival struct {
	to, from *ssa.BasicBlock
	fr       *frame
	st       *State
	phisSet  bool
}

type regionOpts struct {
	mustDecide *ssa.BasicBlock // the If ending this block must be decided, or the region is abandoned
}

type abandon struct{}

// region executes from the arrivals until control leaves the loop (or, if loop is nil, the function).
func (in *Interp) region(fn *ssa.Function, loop *natLoop, work []arrival, opts *regionOpts) []exit {
	var exits []exit
	first := true
	for len(work) > 0 {
		a := work[len(work)-1]
		work = work[:len(work)-1]
		if loop != nil && !(first && a.phisSet) {
			if a.to == loop.header {
				exits = append(exits, exit{kind: "back", to: a.to, from: a.from, fr: a.fr, st: a.st})
				continue
			}
			if !loop.blocks[a.to] {
				exits = append(exits, exit{kind: "edge", to: a.to, from: a.from, fr: a.fr, st: a.st})
				continue
			}
		}
		first = false
		if !a.phisSet {
			if l := in.forest(fn).at(a.to); l != nil {
				for _, e := range in.loop(fn, l, a) {
					switch e.kind {
					case "edge":
						work = append(work, arrival{to: e.to, from: e.from, fr: e.fr, st: e.st})
					default:
						exits = append(exits, e)
					}
				}
				continue
			}
			in.setPhis(a)
		}
		w, ex := in.block(fn, loop, a, opts)
		work = append(work, w...)
		exits = append(exits, ex...)
		if len(exits) > in.C.MaxPaths {
			in.fail("too many paths in %s", fn)
		}
	}
	return exits
}

// setPhis evaluates the phis of a block in parallel.
func (in *Interp) setPhis(a arrival) {
	var phis []*ssa.Phi
	var vals []*Term
	for _, i := range a.to.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, in.phiVal(a, p))
	}
	for i, p := range phis {
		a.fr.env[p] = vals[i]
	}
}

func (in *Interp) phiVal(a arrival, p *ssa.Phi) *Term {
	for k, pred := range a.to.Preds {
		if pred == a.from {
			return in.val(a.fr, p.Edges[k])
		}
	}
	in.fail("phi without predecessor in %s", a.to.Parent())
	return nil
}

// cursor is a position inside a block.
type cursor struct {
	idx int
	fr  *frame
	st  *State
}

// block executes the instructions of one block.
func (in *Interp) block(fn *ssa.Function, loop *natLoop, a arrival, opts *regionOpts) (out []arrival, exits []exit) {
	start := 0
	for start < len(a.to.Instrs) {
		if _, ok := a.to.Instrs[start].(*ssa.Phi); !ok {
			break
		}
		start++
	}
	cur := []cursor{{start, a.fr, a.st}}
	for len(cur) > 0 {
		c := cur[len(cur)-1]
		cur = cur[:len(cur)-1]
	run:
		for c.idx < len(a.to.Instrs) {
			i := a.to.Instrs[c.idx]
			in.Stats.Instrs++
			var next []cursor
			cond := in.try(func() { next = in.instr(fn, i, c, a.to, opts, &out, &exits) })
			if cond != nil {
				if os.Getenv("ABSINT_TRACE") != "" {
					fmt.Fprintln(os.Stderr, "split", fn, i, cond)
				}
				in.paths++
				if in.paths > in.C.MaxPaths {
					in.fail("too many forks in %s", fn)
				}
				t, f := c.st.clone(), c.st
				if f.F.Assume(in.U, cond, false) {
					cur = append(cur, cursor{c.idx, c.fr.clone(), f})
				}
				if t.F.Assume(in.U, cond, true) {
					cur = append(cur, cursor{c.idx, c.fr, t})
				}
				break run
			}
			if len(next) == 1 {
				c = next[0]
				continue
			}
			cur = append(cur, next...)
			break run
		}
	}
	return out, exits
}

func (in *Interp) try(f func()) (cond *Term) {
	n := len(in.stack)
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(split); ok {
				cond = s.cond
				in.stack = in.stack[:n]
				return
			}
			panic(r)
		}
	}()
	f()
	return nil
}

// val evaluates an SSA value.
func (in *Interp) val(fr *frame, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return in.Zero(x.Type())
		}
		if x.Value.Kind() == constant.Float && isInt(x.Type()) {
			return in.U.Const(constant.ToInt(x.Value), x.Type())
		}
		return in.U.Const(x.Value, x.Type())
	case *ssa.Global:
		return in.Global(x)
	case *ssa.Function:
		return in.U.mk(Term{Op: OFunc, Fn: x, Typ: x.Type()})
	case *ssa.Builtin:
		return in.U.App("builtin:"+x.Name(), x.Type())
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	in.fail("no value for %s in %s", v.Name(), fr.fn)
	return nil
}

// Global is the address of a package-level variable.
func (in *Interp) Global(g *ssa.Global) *Term {
	return in.U.mk(Term{Op: OGlobal, Aux: g.Pkg.Pkg.Path() + "." + g.Name(), Typ: g.Type()})
}

func (in *Interp) globalOf(aux string) *ssa.Global {
	k := strings.LastIndex(aux, ".")
	for _, p := range in.C.Prog.AllPackages() {
		if p.Pkg.Path() == aux[:k] {
			g, _ := p.Members[aux[k+1:]].(*ssa.Global)
			return g
		}
	}
	return nil
}

// globalInit is the initial value of (part of) a package-level variable.
func (in *Interp) globalInit(addr *Term, typ types.Type) *Term {
	root, _ := rootOf(addr)
	g := in.globalOf(root.Aux)
	if g == nil || !in.C.InModule(g.Pkg.Pkg.Path()) || in.inInit {
		return in.Init(addr, typ, "")
	}
	if !in.onlyInit(g) {
		return in.Init(addr, typ, "")
	}
	st := in.initState(g.Pkg)
	if st != nil {
		if v, ok := st.Mem[addr]; ok {
			return v
		}
	}
	return in.Init(addr, typ, "")
}

// initState interprets the initialisation of a package.
func (in *Interp) initState(p *ssa.Package) *State {
	if st, ok := in.glob[p.Pkg]; ok {
		return st
	}
	in.glob[p.Pkg] = nil
	init := p.Func("init")
	if init == nil {
		return nil
	}
	save, savePaths, saveStack := in.inInit, in.paths, in.stack
	in.inInit = true
	defer func() { in.inInit, in.paths, in.stack = save, savePaths, saveStack }()
	st := newState()
	guard := p.Members["init$guard"]
	if g, ok := guard.(*ssa.Global); ok {
		st.Mem[in.Global(g)] = in.U.Bool(false)
	}
	outs := in.execFunc(st, init, nil, nil)
	if len(outs) != 1 || outs[0].Kind != "return" {
		return nil
	}
	in.glob[p.Pkg] = outs[0].St
	for a, v := range outs[0].St.Mem {
		in.initCells[a] = v
	}
	for m, v := range outs[0].St.Maps {
		in.initMaps[m] = v
	}
	return outs[0].St
}

func (in *Interp) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := in.C.Prog.Fset.Position(p)
	if r, err := filepath.Rel(in.C.RepoDir, q.Filename); err == nil && in.C.RepoDir != "" && !strings.HasPrefix(r, "..") {
		q.Filename = r
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

// instr executes one instruction; it returns the cursors to continue from, or adds arrivals and exits.
func (in *Interp) instr(fn *ssa.Function, i ssa.Instruction, c cursor, b *ssa.BasicBlock, opts *regionOpts, out *[]arrival, exits *[]exit) []cursor {
	u, fr, st := in.U, c.fr, c.st
	next := func() []cursor { return []cursor{{c.idx + 1, fr, st}} }
	v := func(x ssa.Value) *Term { return in.val(fr, x) }
	set := func(x ssa.Value, t *Term) []cursor {
		fr.env[x] = t
		return next()
	}
	switch x := i.(type) {
	case *ssa.DebugRef:
		return next()
	case *ssa.Alloc:
		t := u.mk(Term{Op: OAlloc, Aux: u.Fresh(), Typ: x.Type()})
		if !x.Heap {
			// a stack slot is cleared whenever control passes its declaration; a fresh object does that
			_ = t
		}
		return set(x, t)
	case *ssa.BinOp:
		if (x.Op == token.QUO || x.Op == token.REM) && isInt(x.Type()) && in.C.NilChecks && st.F.Decide(u, u.Eq(v(x.Y), u.Int(0))) != False {
			in.effect(st, &Effect{Kind: "may-zero", Name: "divide", Args: []*Term{v(x.Y)}, Pos: in.pos(x.Pos()), Fn: fn.String()})
		}
		return set(x, in.binop(st, x.Op, v(x.X), v(x.Y), x.Type(), x.X.Type()))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a := v(x.X)
			in.deref(st, a, x, fn)
			return set(x, in.Load(st, a, x.Type()))
		case token.NOT:
			return set(x, u.Not(v(x.X)))
		case token.SUB:
			if isInt(x.Type()) {
				return set(x, u.Add(u.Int(0), v(x.X), -1))
			}
			return set(x, u.App("neg", x.Type(), v(x.X)))
		case token.ARROW:
			in.fail("channel receive at %s", in.pos(x.Pos()))
		}
		return set(x, u.App("unop"+x.Op.String(), x.Type(), v(x.X)))
	case *ssa.ChangeType:
		return set(x, v(x.X))
	case *ssa.ChangeInterface:
		return set(x, v(x.X))
	case *ssa.Convert:
		return set(x, in.convert(v(x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		return set(x, in.convert(v(x.X), x.X.Type(), x.Type()))
	case *ssa.MakeInterface:
		boxed := u.mk(Term{Op: OIface, Typ: x.X.Type(), Args: []*Term{v(x.X)}})
		in.kept(st, boxed, x.Type(), x, fn)
		return set(x, boxed)
	case *ssa.MakeClosure:
		var bs []*Term
		for _, bd := range x.Bindings {
			bs = append(bs, v(bd))
		}
		return set(x, u.mk(Term{Op: OClosure, Fn: x.Fn.(*ssa.Function), Args: bs, Typ: x.Type()}))
	case *ssa.MakeMap:
		return set(x, u.mk(Term{Op: OMap, Aux: u.Fresh(), Typ: x.Type()}))
	case *ssa.MakeSlice:
		l := v(x.Len)
		if in.C.NilChecks && st.F.Decide(u, u.Less(u.Int(0), l, false)) != True {
			in.effect(st, &Effect{Kind: "may-oob", Name: "make", Args: []*Term{l}, Pos: in.pos(x.Pos()), Fn: fn.String()})
		}
		return set(x, u.mk(Term{Op: OMake, Aux: u.Fresh(), Args: []*Term{l}, Typ: x.Type()}))
	case *ssa.FieldAddr:
		a := v(x.X)
		in.deref(st, a, x, fn)
		return set(x, u.FieldAddr(a, x.Field, derefT(x.Type())))
	case *ssa.Field:
		return set(x, u.Field(v(x.X), x.Field, x.Type()))
	case *ssa.IndexAddr:
		l := v(x.X)
		idx := v(x.Index)
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			_ = p
			in.deref(st, l, x, fn)
			l = in.arrayList(l)
		}
		in.bounds(st, l, idx, x, fn)
		idx = in.settled(st, idx)
		return set(x, u.IndexAddr(l, idx, derefT(x.Type())))
	case *ssa.Index:
		l, idx := v(x.X), v(x.Index)
		if k, ok := idx.IntVal(); ok && l.Op == OList && int(k) < len(l.Args) {
			return set(x, l.Args[k])
		}
		in.bounds(st, l, idx, x, fn)
		return set(x, u.App("byteat", x.Type(), l, idx))
	case *ssa.Slice:
		return set(x, in.slice(st, x, v, fn))
	case *ssa.Lookup:
		m := v(x.X)
		if isString(x.X.Type()) {
			in.bounds(st, m, v(x.Index), x, fn)
			return set(x, u.App("byteat", x.Type(), m, v(x.Index)))
		}
		vt := x.X.Type().Underlying().(*types.Map).Elem()
		val, ok := in.mapLookup(st, in.Contents(st, m), v(x.Index), vt)
		if x.CommaOk {
			return set(x, u.mk(Term{Op: OTuple, Args: []*Term{val, ok}}))
		}
		return set(x, val)
	case *ssa.MapUpdate:
		m, k, val := v(x.Map), v(x.Key), v(x.Value)
		if in.C.NilChecks && !st.F.isNonNil(u, m) {
			in.effect(st, &Effect{Kind: "may-nil", Name: "map write", Args: []*Term{m}, Pos: in.pos(x.Pos()), Fn: fn.String()})
		}
		in.kept(st, val, x.Value.Type(), x, fn)
		st.Maps[m] = in.mapPut(st, in.Contents(st, m), k, val)
		return next()
	case *ssa.Range:
		xs := v(x.X)
		it := u.mk(Term{Op: OAlloc, Aux: u.Fresh(), Typ: types.NewPointer(types.Typ[types.Int])})
		st.Mem[it] = u.Int(0)
		var over *Term
		if isString(x.X.Type()) {
			over = xs
		} else {
			over = in.Contents(st, xs)
		}
		return set(x, u.App("iter", x.X.Type(), it, over))
	case *ssa.Next:
		return in.next(fn, x, c, set)
	case *ssa.Extract:
		t := v(x.Tuple)
		if t.Op == OTuple {
			return set(x, t.Args[x.Index])
		}
		in.fail("extract from %s", t)
	case *ssa.TypeAssert:
		return in.typeAssert(fn, x, c, set)
	case *ssa.Store:
		a := v(x.Addr)
		in.deref(st, a, x, fn)
		if a.Op != OAlloc {
			in.kept(st, v(x.Val), x.Val.Type(), x, fn)
		}
		in.Store(st, a, v(x.Val), x.Val.Type())
		return next()
	case *ssa.Phi:
		return next()
	case *ssa.Jump:
		*out = append(*out, arrival{to: b.Succs[0], from: b, fr: fr, st: st})
		return nil
	case *ssa.If:
		cond := v(x.Cond)
		switch st.F.Decide(u, cond) {
		case True:
			*out = append(*out, arrival{to: b.Succs[0], from: b, fr: fr, st: st})
			return nil
		case False:
			*out = append(*out, arrival{to: b.Succs[1], from: b, fr: fr, st: st})
			return nil
		}
		if opts != nil && opts.mustDecide == b {
			panic(abandon{})
		}
		in.decide(st, cond)
	case *ssa.Return:
		var res []*Term
		for _, r := range x.Results {
			res = append(res, v(r))
		}
		*exits = append(*exits, exit{kind: "return", from: b, fr: fr, st: st, res: res})
		return nil
	case *ssa.Panic:
		in.effect(st, &Effect{Kind: "panic", Name: "panic", Args: []*Term{v(x.X)}, Pos: in.pos(x.Pos()), Fn: fn.String()})
		*exits = append(*exits, exit{kind: "panic", from: b, fr: fr, st: st})
		return nil
	case *ssa.Defer:
		d := deferred{call: &x.Call, pos: x.Pos()}
		d.fn, d.args = in.callee(fr, &x.Call)
		fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], d)
		return next()
	case *ssa.RunDefers:
		return in.runDefers(fn, c, exits)
	case *ssa.Call:
		f, args := in.callee(fr, &x.Call)
		return in.finishCall(in.call(fn, &x.Call, f, args, st, x.Pos(), x.Type()), x, c, exits)
	case *ssa.Go:
		in.fail("goroutine at %s", in.pos(x.Pos()))
	case *ssa.SliceToArrayPointer:
		in.fail("slice to array pointer at %s", in.pos(x.Pos()))
	}
	in.fail("unsupported instruction %T at %s", i, in.pos(i.Pos()))
	return nil
}

func (in *Interp) finishCall(outs []Outcome, x *ssa.Call, c cursor, exits *[]exit) []cursor {
	var cs []cursor
	for k, o := range outs {
		fr := c.fr
		if k < len(outs)-1 {
			fr = fr.clone()
		}
		if o.Kind != "return" {
			*exits = append(*exits, exit{kind: o.Kind, fr: fr, st: o.St})
			continue
		}
		if x != nil {
			switch n := len(o.Res); {
			case n == 1:
				fr.env[x] = o.Res[0]
			default:
				fr.env[x] = in.U.mk(Term{Op: OTuple, Args: o.Res})
			}
		}
		cs = append(cs, cursor{c.idx + 1, fr, o.St})
	}
	return cs
}

func (in *Interp) runDefers(fn *ssa.Function, c cursor, exits *[]exit) []cursor {
	if len(c.fr.defers) == 0 {
		return []cursor{{c.idx + 1, c.fr, c.st}}
	}
	d := c.fr.defers[len(c.fr.defers)-1]
	outs := in.call(fn, d.call, d.fn, d.args, c.st, d.pos, d.call.Signature().Results())
	var cs []cursor
	for _, o := range outs {
		fr := c.fr.clone()
		fr.defers = fr.defers[:len(fr.defers)-1]
		if o.Kind != "return" {
			*exits = append(*exits, exit{kind: o.Kind, fr: fr, st: o.St})
			continue
		}
		// stay on RunDefers until none are left
		cs = append(cs, cursor{c.idx, fr, o.St})
	}
	return cs
}

func (in *Interp) effect(st *State, e *Effect) {
	e.NF = len(st.F.seq)
	st.Effects = append(st.Effects[:len(st.Effects):len(st.Effects)], e)
}

// settled replaces an index by the number it must be, going by what is known of the lengths of lists.
func (in *Interp) settled(st *State, idx *Term) *Term {
	if idx.IsConst() {
		return idx
	}
	l := toLinear(idx)
	sum := l.c
	for x, k := range l.m {
		if x.Op != OLen {
			return idx
		}
		c, ok := st.F.intOf(x)
		if !ok {
			return idx
		}
		sum += k * c
	}
	return in.U.Int(sum)
}

// deref notes that a pointer is followed.
func (in *Interp) deref(st *State, p *Term, i ssa.Instruction, fn *ssa.Function) {
	switch p.Op {
	case OAlloc, OGlobal, OFieldAddr, OIndexAddr:
		return
	}
	u := in.U
	eq := u.Eq(p, u.Nil())
	switch st.F.Decide(u, eq) {
	case False:
		return
	case True:
		e := &Effect{Kind: "may-nil", Name: "deref", Args: []*Term{p}, Pos: in.pos(i.Pos()), Fn: fn.String()}
		in.effect(st, e)
		in.Certain = append(in.Certain, e)
		return
	}
	if in.C.NilChecks {
		in.effect(st, &Effect{Kind: "may-nil", Name: "deref", Args: []*Term{p}, Pos: in.pos(i.Pos()), Fn: fn.String()})
	}
	st.F.Assume(u, eq, false)
}

// kept notes that a value is put where it may be nil, although everything relies on that it is not.
func (in *Interp) kept(st *State, v *Term, to types.Type, i ssa.Instruction, fn *ssa.Function) {
	if in.C.Kept == nil {
		return
	}
	if bad := in.C.Kept(st, v, to); bad != nil {
		in.effect(st, &Effect{Kind: "may-nil", Name: "kept", Args: []*Term{bad}, Pos: in.pos(i.Pos()), Fn: fn.String()})
	}
}

// needs notes that a function is called with nil, although it needs something else.
func (in *Interp) needs(cc *callCtx) {
	if in.C.Needs == nil {
		return
	}
	if bad := in.C.Needs(cc.st, cc.name, cc.args); bad != nil {
		in.effect(cc.st, &Effect{Kind: "may-nil", Name: "argument of " + cc.name, Args: []*Term{bad}, Pos: cc.pos, Fn: cc.fn})
	}
}

// bounds notes that a list or string is indexed.
func (in *Interp) bounds(st *State, l, idx *Term, i ssa.Instruction, fn *ssa.Function) {
	u := in.U
	lo := u.Less(u.Int(0), idx, false)
	hi := u.Less(idx, u.Len(l), true)
	a, b := st.F.Decide(u, lo), st.F.Decide(u, hi)
	if a == True && b == True {
		return
	}
	if in.C.NilChecks || a == False || b == False {
		in.effect(st, &Effect{Kind: "may-oob", Name: "index", Args: []*Term{l, idx}, Pos: in.pos(i.Pos()), Fn: fn.String()})
	}
	if !st.F.Assume(u, lo, true) || !st.F.Assume(u, hi, true) || st.F.Infeasible(u) {
		in.Certain = append(in.Certain, &Effect{Kind: "may-oob", Name: "index", Args: []*Term{l, idx}, Pos: in.pos(i.Pos()), Fn: fn.String()})
	}
}

func (in *Interp) slice(st *State, x *ssa.Slice, v func(ssa.Value) *Term, fn *ssa.Function) *Term {
	l := v(x.X)
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		if _, ok := p.Elem().Underlying().(*types.Array); ok {
			l = in.arrayList(l)
		}
	}
	var lo, hi *Term
	if x.Low != nil {
		lo = v(x.Low)
	}
	if x.High != nil {
		hi = v(x.High)
	}
	u := in.U
	if lo != nil || hi != nil {
		a, b := lo, hi
		if a == nil {
			a = u.Int(0)
		}
		if b == nil {
			b = u.Len(l)
		}
		for _, c := range []*Term{u.Less(u.Int(0), a, false), u.Less(a, b, false), u.Less(b, u.Len(l), false)} {
			if st.F.Decide(u, c) != True {
				if in.C.NilChecks {
					in.effect(st, &Effect{Kind: "may-oob", Name: "slice", Args: []*Term{l, a, b}, Pos: in.pos(x.Pos()), Fn: fn.String()})
				}
				st.F.Assume(u, c, true)
			}
		}
	}
	r := u.Sub(l, lo, hi)
	if isString(x.Type()) {
		return r
	}
	return in.snapshot(st, r)
}

// snapshot turns slices of small literal arrays into literal lists (their backing array is not otherwise reachable).
func (in *Interp) snapshot(st *State, l *Term) *Term { return l }

// Elems lists the elements of a list of constant length, reading memory; ok is false if the length is not constant.
func (in *Interp) Elems(st *State, l *Term) (es []*Term, ok bool) {
	if l.IsNil() {
		return nil, true
	}
	switch l.Op {
	case OList:
		if es := in.permuted(st, l); es != nil {
			return es, true
		}
		return l.Args, true
	case OCat:
		for _, s := range l.Args {
			x, ok := in.Elems(st, s)
			if !ok {
				return nil, false
			}
			es = append(es, x...)
		}
		return es, true
	}
	n, isC := in.U.Len(l).IntVal()
	if !isC {
		if c, ok := st.F.constOf(in.U.Len(l)); ok {
			n, isC = c.IntVal()
		}
	}
	if !isC || n > 64 || l.Typ == nil {
		return nil, false
	}
	et := elemType(l.Typ)
	if et == nil {
		return nil, false
	}
	for k := int64(0); k < n; k++ {
		es = append(es, in.Load(st, in.U.IndexAddr(l, in.U.Int(k), et), et))
	}
	return es, true
}

func elemType(t types.Type) types.Type {
	switch x := t.Underlying().(type) {
	case *types.Slice:
		return x.Elem()
	case *types.Array:
		return x.Elem()
	}
	return nil
}

// Resolve replaces array-backed segments of a list by literal lists.
func (in *Interp) Resolve(st *State, l *Term) *Term {
	switch l.Op {
	case OList:
		if es := in.permuted(st, l); es != nil {
			return in.U.List(l.Typ, es...)
		}
	case OCat:
		segs := make([]*Term, len(l.Args))
		for i, s := range l.Args {
			segs[i] = in.Resolve(st, s)
		}
		return in.U.Cat(l.Typ, segs...)
	case OMake:
		if es, ok := in.Elems(st, l); ok {
			if l.Idx == 1 || len(es) > 0 {
				return in.U.List(l.Typ, es...)
			}
		}
	case OSub:
		if l.Args[0].Op == OMake && l.Args[0].Idx == 1 {
			if es, ok := in.Elems(st, l); ok {
				return in.U.List(l.Typ, es...)
			}
		}
	}
	return l
}

func (in *Interp) convert(t *Term, from, to types.Type) *Term {
	fs, ts := isString(from), isString(to)
	fb, tb := isBytes(from), isBytes(to)
	switch {
	case (fs || fb) && (ts || tb):
		if tb && t.IsNil() {
			return t
		}
		if ts && t.IsNil() {
			return in.U.Str("")
		}
		return t
	case isInt(from) && ts:
		return in.U.App("runestr", to, t)
	case isInt(from) && isInt(to):
		if c, ok := t.IntVal(); ok {
			return in.U.Const(constant.MakeInt64(c), to)
		}
		if width(to) >= width(from) && (isUnsigned(from) || !isUnsigned(to)) || width(to) == width(from) {
			return t
		}
		return in.U.App("conv:"+typeKey(to.Underlying()), to, t)
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return t
	}
	return in.U.App("conv:"+typeKey(to), to, t)
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func width(t types.Type) int {
	switch t.Underlying().(*types.Basic).Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func (in *Interp) binop(st *State, op token.Token, a, b *Term, typ, xt types.Type) *Term {
	u := in.U
	switch op {
	case token.EQL, token.NEQ:
		e := in.eq(st, a, b, xt)
		if op == token.NEQ {
			e = u.Not(e)
		}
		return e
	case token.ADD:
		if isString(typ) {
			return u.Concat(a, b)
		}
		if isInt(typ) {
			return u.Add(a, b, 1)
		}
	case token.SUB:
		if isInt(typ) {
			return u.Add(a, b, -1)
		}
	case token.MUL:
		if isInt(typ) {
			if k, ok := a.IntVal(); ok {
				return u.Add(u.Int(0), b, k)
			}
			if k, ok := b.IntVal(); ok {
				return u.Add(u.Int(0), a, k)
			}
		}
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if isInt(xt) {
			switch op {
			case token.LSS:
				return u.Less(a, b, true)
			case token.GTR:
				return u.Less(b, a, true)
			case token.LEQ:
				return u.Less(a, b, false)
			default:
				return u.Less(b, a, false)
			}
		}
		switch op {
		case token.GTR:
			return u.App("<", types.Typ[types.Bool], b, a)
		case token.LSS:
			return u.App("<", types.Typ[types.Bool], a, b)
		case token.LEQ:
			return u.Not(u.App("<", types.Typ[types.Bool], b, a))
		default:
			return u.Not(u.App("<", types.Typ[types.Bool], a, b))
		}
	}
	if a.Val != nil && b.Val != nil && op != token.QUO && op != token.REM {
		defer func() { recover() }()
		switch op {
		case token.SHL, token.SHR:
			s, _ := constant.Uint64Val(b.Val)
			return u.Const(constant.Shift(a.Val, op, uint(s)), typ)
		default:
			return u.Const(constant.BinaryOp(a.Val, op, b.Val), typ)
		}
	}
	return u.App("op"+op.String(), typ, a, b)
}

// eq compares two values of type t.
func (in *Interp) eq(st *State, a, b *Term, t types.Type) *Term {
	u := in.U
	switch x := t.Underlying().(type) {
	case *types.Struct:
		// fieldwise; decided left to right
		for i := 0; i < x.NumFields(); i++ {
			ft := x.Field(i).Type()
			if !in.decide(st, in.eq(st, u.Field(a, i, ft), u.Field(b, i, ft), ft)) {
				return u.Bool(false)
			}
		}
		return u.Bool(true)
	case *types.Interface:
		if a.Op == OIface && b.Op == OIface {
			if !types.Identical(a.Typ, b.Typ) {
				return u.Bool(false)
			}
			return in.eq(st, a.Args[0], b.Args[0], a.Typ)
		}
	}
	return u.Eq(a, b)
}

// next steps a map or string iterator.
func (in *Interp) next(fn *ssa.Function, x *ssa.Next, c cursor, set func(ssa.Value, *Term) []cursor) []cursor {
	u, st := in.U, c.st
	it := in.val(c.fr, x.Iter)
	cnt, over := it.Args[0], it.Args[1]
	k := st.Mem[cnt]
	if k == nil {
		in.fail("iterator state lost at %s", in.pos(x.Pos()))
	}
	size := u.mk(Term{Op: OLen, Args: []*Term{over}, Typ: types.Typ[types.Int]})
	if x.IsString {
		size = u.App("runecount", types.Typ[types.Uint], over)
		if s, ok := over.StrVal(); ok {
			size = u.Int(int64(len([]rune(s))))
		}
	} else if n, ok := in.mapSize(over); ok {
		size = u.Int(int64(n))
	} else {
		size = u.App("mapsize", types.Typ[types.Uint], over)
	}
	if !in.decide(st, u.Less(k, size, true)) {
		return set(x, u.mk(Term{Op: OTuple, Args: []*Term{u.Bool(false), u.Nil(), u.Nil()}}))
	}
	tt := x.Type().(*types.Tuple)
	if x.IsString {
		// the first rune is at 0 and no other is
		idx := u.Int(0)
		if !in.decide(st, u.Eq(k, u.Int(0))) {
			idx = u.App("runeidx", types.Typ[types.Uint], over, k)
			st.F.Assume(u, u.Less(u.Int(0), idx, true), true)
		}
		st.Mem[cnt] = u.Add(k, u.Int(1), 1)
		return set(x, u.mk(Term{Op: OTuple, Args: []*Term{u.Bool(true), idx, u.App("rune", types.Typ[types.Rune], over, k)}}))
	}
	st.Mem[cnt] = u.Add(k, u.Int(1), 1)
	if ks, vs, ok := entries(over); ok && in.C.Known {
		if i, ok := k.IntVal(); ok {
			if in.C.Backwards {
				i = int64(len(ks)) - 1 - i
			}
			return set(x, u.mk(Term{Op: OTuple, Args: []*Term{u.Bool(true), ks[i], vs[i]}}))
		}
	}
	key := u.App("mapkey", tt.At(1).Type(), over, k)
	mt := it.Typ.Underlying().(*types.Map)
	key.Typ = mt.Key()
	has := u.mk(Term{Op: OMHas, Args: []*Term{over, key}, Typ: types.Typ[types.Bool]})
	st.F.Assume(u, has, true)
	return set(x, u.mk(Term{Op: OTuple, Args: []*Term{u.Bool(true), key, u.mk(Term{Op: OMGet, Args: []*Term{over, key}, Typ: mt.Elem()})}}))
}

func (in *Interp) typeAssert(fn *ssa.Function, x *ssa.TypeAssert, c cursor, set func(ssa.Value, *Term) []cursor) []cursor {
	u, st := in.U, c.st
	t := in.val(c.fr, x.X)
	var ok, val *Term
	if types.IsInterface(x.AssertedType) {
		if t.Op == OIface {
			if types.AssertableTo(x.AssertedType.Underlying().(*types.Interface), t.Typ) && types.Implements(t.Typ, x.AssertedType.Underlying().(*types.Interface)) {
				ok = u.Bool(true)
			} else {
				ok = u.Bool(false)
			}
		} else if t.IsNil() {
			ok = u.Bool(false)
		} else {
			ok = u.mk(Term{Op: OTypeIs, Aux: "implements " + typeKey(x.AssertedType), Args: []*Term{t}, Typ: types.Typ[types.Bool]})
		}
		val = t
	} else {
		if t.Op == OIface {
			ok = u.Bool(types.Identical(t.Typ, x.AssertedType))
			val = t.Args[0]
		} else if t.IsNil() {
			ok = u.Bool(false)
			val = u.Nil()
		} else {
			ok = u.mk(Term{Op: OTypeIs, Aux: typeKey(x.AssertedType), Args: []*Term{t}, Typ: types.Typ[types.Bool]})
			val = u.mk(Term{Op: OUnwrap, Args: []*Term{t}, Typ: x.AssertedType})
		}
	}
	if !x.CommaOk {
		if st.F.Decide(u, ok) != True {
			if in.C.NilChecks {
				in.effect(st, &Effect{Kind: "may-nil", Name: "type assertion", Args: []*Term{t}, Pos: in.pos(x.Pos()), Fn: fn.String()})
			}
			st.F.Assume(u, ok, true)
		}
		return set(x, val)
	}
	if !in.decide(st, ok) {
		return set(x, u.mk(Term{Op: OTuple, Args: []*Term{in.Zero(x.AssertedType), u.Bool(false)}}))
	}
	return set(x, u.mk(Term{Op: OTuple, Args: []*Term{val, u.Bool(true)}}))
}
