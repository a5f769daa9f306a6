// Package absint is a path-partitioned abstract interpreter over go/ssa.
//
// Values are interned terms (a value-numbering domain); memory maps symbolic addresses to terms; facts are
// conjunctions of literals plus linear inequalities.  Calls to functions of the analysed module are inlined; loops
// are never unrolled (except over literal lists of constant length) but summarised to a fixpoint: anything the body
// may change becomes a loop variable, and the body is interpreted once from that abstract state.
package absint

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Op is the kind of a term.
type Op uint8

const (
	OConst     Op = iota // constant; Aux is kind-prefixed exact value
	OParam               // symbolic input named Aux
	OApp                 // pure application of Aux to Args
	ORes                 // result Idx of effect Aux (unique call id)
	OStruct              // struct value with fields Args
	OField               // field Idx of struct term Args[0]
	OAlloc               // pointer to fresh object Aux
	OGlobal              // pointer to global Aux
	OFieldAddr           // address of field Idx of object at Args[0]
	OIndexAddr           // address of element Args[1] of list (or array at) Args[0]
	OInit                // contents of address Args[0] at version Aux
	OList                // list literal Args
	OCat                 // concatenation of lists Args
	OSub                 // Args[0][Args[1]:Args[2]]
	OMake                // fresh list Aux of length Args[0]
	OLen                 // length of Args[0]
	OLin                 // linear combination; see Coef/Const
	OLe                  // Args[0] <= 0
	OEq                  // Args[0] == Args[1]
	OMap                 // pointer-like identity of a fresh map Aux
	OMEmpty              // map contents: empty
	OMInit               // map contents: initial contents of map Args[0], version Aux
	OMStore              // map contents: Args[0] with Args[1] -> Args[2]
	OMDel                // map contents: Args[0] without Args[1]
	OMGet                // value at key Args[1] of contents Args[0]
	OMHas                // presence of key Args[1] in contents Args[0]
	OLV                  // value of loop variable Aux (unique id) at the start of an iteration of Loop
	OLX                  // value of loop variable at exit Idx of Loop
	OIface               // interface value with dynamic type Typ and content Args[0]
	OUnwrap              // dynamic value of interface term Args[0] assumed to be of type Typ
	OTypeIs              // dynamic type of Args[0] is Aux
	OFunc                // function Fn
	OClosure             // closure over Fn with bindings Args
	OConcat              // string concatenation of Args
	OFmt                 // Args[0] formatted with verb Aux
	OIte                 // conditional value (only from unresolved merges)
	OUnk                 // unknown value, unique Aux
	OTuple
)

var opNames = map[Op]string{OConst: "const", OParam: "param", OApp: "app", ORes: "res", OStruct: "struct", OField: "field",
	OAlloc: "alloc", OGlobal: "global", OFieldAddr: "&field", OIndexAddr: "&index", OInit: "init", OList: "list", OCat: "cat",
	OSub: "sub", OMake: "make", OLen: "len", OLin: "lin", OLe: "le", OEq: "eq", OMap: "map", OMEmpty: "mempty", OMInit: "minit",
	OMStore: "mstore", OMDel: "mdel", OMGet: "mget", OMHas: "mhas", OLV: "lv", OLX: "lx", OIface: "iface", OUnwrap: "unwrap",
	OTypeIs: "typeis", OFunc: "func", OClosure: "closure", OConcat: "concat", OFmt: "fmt", OIte: "ite", OUnk: "unk", OTuple: "tuple"}

// Term is an interned abstract value.
type Term struct {
	ID   int
	Op   Op
	Aux  string
	Idx  int
	Args []*Term
	Typ  types.Type
	Fn   *ssa.Function
	Val  constant.Value // for OConst other than nil
	Coef []int64        // for OLin, parallel to Args
	C    int64          // for OLin
	Loop *Loop          // for OLV and OLX
}

// Universe interns terms.
type Universe struct {
	tab    map[string]*Term
	next   int
	uniq   int
	byID   map[int]*Term
	byAux  map[string][]*Term // results of calls
	byAddr map[*Term][]*Term  // contents of addresses

	holds func(f *Facts, t *Term) bool
	// visited decides whether part of a list element, as a loop over the list left it, is a constant
	visited func(f *Facts, t, c *Term) Tri

	commutes map[string]bool // functions of two arguments in any order
}

func NewUniverse() *Universe {
	return &Universe{tab: map[string]*Term{}, byID: map[int]*Term{}, byAux: map[string][]*Term{}, byAddr: map[*Term][]*Term{}}
}

func (u *Universe) Fresh() string { u.uniq++; return strconv.Itoa(u.uniq) }

// Inits finds what may have been read at an address.
func (u *Universe) Inits(addr *Term) []*Term { return u.byAddr[addr] }

// Find finds a term that has been made before.
func (u *Universe) Find(t Term) *Term {
	for _, x := range u.byAux[t.Aux] {
		if x.Op == t.Op && x.Idx == t.Idx {
			return x
		}
	}
	return nil
}

func (u *Universe) mk(t Term) *Term {
	if t.Op == OApp && len(t.Args) == 2 && t.Args[0].ID > t.Args[1].ID && len(u.commutes) > 0 && u.commutes[strings.SplitN(t.Aux, "@", 2)[0]] {
		t.Args = []*Term{t.Args[1], t.Args[0]}
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%s|%d|", t.Op, t.Aux, t.Idx)
	for _, a := range t.Args {
		fmt.Fprintf(&b, "%d,", a.ID)
	}
	if t.Op == OLin {
		for _, c := range t.Coef {
			fmt.Fprintf(&b, ";%d", c)
		}
		fmt.Fprintf(&b, ";%d", t.C)
	}
	if t.Op == OIface || t.Op == OUnwrap {
		b.WriteString(types.TypeString(t.Typ, nil))
	}
	if t.Fn != nil {
		fmt.Fprintf(&b, "|%p", t.Fn)
	}
	k := b.String()
	if x, ok := u.tab[k]; ok {
		return x
	}
	u.next++
	t.ID = u.next
	x := &t
	u.tab[k] = x
	u.byID[x.ID] = x
	if x.Op == OInit {
		u.byAddr[x.Args[0]] = append(u.byAddr[x.Args[0]], x)
	}
	if x.Op == ORes {
		u.byAux[x.Aux] = append(u.byAux[x.Aux], x)
	}
	return x
}

// Const makes a constant term.
func (u *Universe) Const(v constant.Value, typ types.Type) *Term {
	if v == nil {
		return u.Nil()
	}
	kind := "n:"
	switch v.Kind() {
	case constant.String:
		kind = "s:"
		return u.mk(Term{Op: OConst, Aux: kind + constant.StringVal(v), Val: v, Typ: typ})
	case constant.Bool:
		kind = "b:"
	}
	return u.mk(Term{Op: OConst, Aux: kind + v.ExactString(), Val: v, Typ: typ})
}

func (u *Universe) Nil() *Term        { return u.mk(Term{Op: OConst, Aux: "nil"}) }
func (u *Universe) Int(i int64) *Term { return u.Const(constant.MakeInt64(i), types.Typ[types.Int]) }
func (u *Universe) Str(s string) *Term {
	return u.Const(constant.MakeString(s), types.Typ[types.String])
}
func (u *Universe) Bool(b bool) *Term { return u.Const(constant.MakeBool(b), types.Typ[types.Bool]) }
func (u *Universe) Param(n string, t types.Type) *Term {
	return u.mk(Term{Op: OParam, Aux: n, Typ: t})
}
func (u *Universe) Unk(why string, t types.Type) *Term {
	return u.mk(Term{Op: OUnk, Aux: why + "#" + u.Fresh(), Typ: t})
}
func (u *Universe) App(fn string, t types.Type, args ...*Term) *Term {
	return u.mk(Term{Op: OApp, Aux: fn, Typ: t, Args: args})
}

func (t *Term) IsNil() bool   { return t.Op == OConst && t.Aux == "nil" }
func (t *Term) IsConst() bool { return t.Op == OConst }

// StrVal gets the string constant in t, if it is one.
func (t *Term) StrVal() (string, bool) {
	if t.Op == OConst && t.Val != nil && t.Val.Kind() == constant.String {
		return constant.StringVal(t.Val), true
	}
	return "", false
}

// IntVal gets the integer constant in t, if it is one.
func (t *Term) IntVal() (int64, bool) {
	if t.Op == OConst && t.Val != nil && t.Val.Kind() == constant.Int {
		return constant.Int64Val(t.Val)
	}
	return 0, false
}

// BoolVal gets the boolean constant in t, if it is one.
func (t *Term) BoolVal() (bool, bool) {
	if t.Op == OConst && t.Val != nil && t.Val.Kind() == constant.Bool {
		return constant.BoolVal(t.Val), true
	}
	return false, false
}

// lin decomposes an integer term.
type linear struct {
	m map[*Term]int64
	c int64
}

func toLinear(t *Term) linear {
	l := linear{m: map[*Term]int64{}}
	l.add(t, 1)
	return l
}

func (l *linear) add(t *Term, k int64) {
	if v, ok := t.IntVal(); ok {
		l.c += k * v
		return
	}
	if t.Op == OLin {
		for i, a := range t.Args {
			l.m[a] += k * t.Coef[i]
			if l.m[a] == 0 {
				delete(l.m, a)
			}
		}
		l.c += k * t.C
		return
	}
	l.m[t] += k
	if l.m[t] == 0 {
		delete(l.m, t)
	}
}

func (u *Universe) fromLinear(l linear, typ types.Type) *Term {
	if len(l.m) == 0 {
		return u.Const(constant.MakeInt64(l.c), typ)
	}
	var ks []*Term
	for k := range l.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	if len(ks) == 1 && l.m[ks[0]] == 1 && l.c == 0 {
		return ks[0]
	}
	cs := make([]int64, len(ks))
	for i, k := range ks {
		cs[i] = l.m[k]
	}
	return u.mk(Term{Op: OLin, Args: ks, Coef: cs, C: l.c, Typ: typ})
}

// Add makes a + k*b.
func (u *Universe) Add(a, b *Term, k int64) *Term {
	l := toLinear(a)
	l.add(b, k)
	return u.fromLinear(l, a.Typ)
}

// LeZ makes the literal l <= 0, or a constant.
func (u *Universe) leZ(l linear) *Term {
	if len(l.m) == 0 {
		return u.Bool(l.c <= 0)
	}
	// normalise by gcd, tightening the constant
	g := int64(0)
	for _, c := range l.m {
		g = gcd(g, abs64(c))
	}
	if g > 1 {
		n := linear{m: map[*Term]int64{}}
		for k, c := range l.m {
			n.m[k] = c / g
		}
		n.c = -floorDiv(-l.c, g) // sum <= -c  =>  sum/g <= floor(-c/g)
		l = n
	}
	return u.mk(Term{Op: OLe, Args: []*Term{u.fromLinear(l, nil)}})
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if (a%b != 0) && ((a < 0) != (b < 0)) {
		q--
	}
	return q
}
func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// Eq makes the literal a == b.
func (u *Universe) Eq(a, b *Term) *Term {
	if a == b {
		return u.Bool(true)
	}
	if a.IsConst() && b.IsConst() {
		return u.Bool(a.Aux == b.Aux)
	}
	if bv, ok := a.BoolVal(); ok {
		a, b = b, u.Bool(bv)
	}
	if bv, ok := b.BoolVal(); ok {
		if bv {
			return a
		}
		return u.Not(a)
	}
	_, ai := a.IntVal()
	_, bi := b.IntVal()
	if ai || bi || a.Op == OLin || b.Op == OLin || isInt(a.Typ) && isInt(b.Typ) {
		l := toLinear(a)
		l.add(b, -1)
		if len(l.m) == 0 {
			return u.Bool(l.c == 0)
		}
		// canonical sign
		t := u.fromLinear(l, nil)
		if t.Op == OLin && t.Coef[0] < 0 {
			n := linear{m: map[*Term]int64{}, c: -l.c}
			for k, c := range l.m {
				n.m[k] = -c
			}
			t = u.fromLinear(n, nil)
		}
		return u.mk(Term{Op: OEq, Args: []*Term{t, u.Int(0)}, Aux: "int"})
	}
	if nonNil(a) && b.IsNil() || nonNil(b) && a.IsNil() {
		return u.Bool(false)
	}
	// length of a string or list against the empty string is kept as an equation on the string
	if a.Op == OStruct && b.Op == OStruct && len(a.Args) == len(b.Args) {
		return u.mk(Term{Op: OEq, Args: order(a, b)})
	}
	if (a.Op == OAlloc || a.Op == OMake || a.Op == OMap) && (b.Op == OAlloc || b.Op == OMake || b.Op == OMap) {
		return u.Bool(false)
	}
	return u.mk(Term{Op: OEq, Args: order(a, b)})
}

func order(a, b *Term) []*Term {
	// constants last
	if a.IsConst() && !b.IsConst() {
		return []*Term{b, a}
	}
	if !a.IsConst() && b.IsConst() {
		return []*Term{a, b}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return []*Term{a, b}
}

// Not negates a boolean term.
func (u *Universe) Not(t *Term) *Term {
	if b, ok := t.BoolVal(); ok {
		return u.Bool(!b)
	}
	if t.Op == OApp && t.Aux == "!" {
		return t.Args[0]
	}
	if t.Op == OLe {
		// !(l <= 0)  ==  -l + 1 <= 0
		l := toLinear(t.Args[0])
		n := linear{m: map[*Term]int64{}, c: -l.c + 1}
		for k, c := range l.m {
			n.m[k] = -c
		}
		return u.leZ(n)
	}
	return u.App("!", types.Typ[types.Bool], t)
}

// Less makes a < b (strict) or a <= b.
func (u *Universe) Less(a, b *Term, strict bool) *Term {
	l := toLinear(a)
	l.add(b, -1)
	if strict {
		l.c++
	}
	return u.leZ(l)
}

func nonNil(t *Term) bool {
	switch t.Op {
	case OAlloc, OFieldAddr, OIndexAddr, OIface, OFunc, OClosure, OMap, OMake, OGlobal:
		return true
	case OList:
		return true
	case OCat:
		for _, a := range t.Args {
			if a.Op == OList && len(a.Args) > 0 {
				return true
			}
		}
	case OApp:
		return nonNilApps[t.Aux]
	}
	return false
}

var nonNilApps = map[string]bool{"fmt.Errorf": true, "errors.New": true, "errors.Join": true, "before": true, "after": true}

// List makes a literal list.
func (u *Universe) List(typ types.Type, elems ...*Term) *Term {
	return u.mk(Term{Op: OList, Args: elems, Typ: typ})
}

// Cat concatenates lists (the result of append).
func (u *Universe) Cat(typ types.Type, lists ...*Term) *Term {
	var segs []*Term
	var add func(l *Term)
	add = func(l *Term) {
		switch {
		case l.IsNil():
		case l.Op == OList && len(l.Args) == 0:
		case l.Op == OCat:
			for _, s := range l.Args {
				add(s)
			}
		case l.Op == OMake && l.Args[0].IsConst() && l.Args[0].Aux == "n:0":
		case l.Op == OSub && u.Eq(l.Args[1], l.Args[2]) == u.Bool(true):
		case l.Op == OList && len(segs) > 0 && segs[len(segs)-1].Op == OList:
			p := segs[len(segs)-1]
			es := append(append([]*Term{}, p.Args...), l.Args...)
			segs[len(segs)-1] = u.List(typ, es...)
		default:
			segs = append(segs, l)
		}
	}
	for _, l := range lists {
		add(l)
	}
	if len(segs) == 0 {
		return u.Nil()
	}
	if len(segs) == 1 && segs[0].Op == OList {
		return segs[0]
	}
	if len(segs) == 1 && len(lists) > 0 && segs[0] == lists[0] {
		return segs[0]
	}
	return u.mk(Term{Op: OCat, Args: segs, Typ: typ})
}

// Len makes the length of a list, string or map-contents term.
func (u *Universe) Len(t *Term) *Term {
	switch t.Op {
	case OConst:
		if s, ok := t.StrVal(); ok {
			return u.Int(int64(len(s)))
		}
		if t.IsNil() {
			return u.Int(0)
		}
	case OList:
		return u.Int(int64(len(t.Args)))
	case OCat:
		r := u.Int(0)
		for _, a := range t.Args {
			r = u.Add(r, u.Len(a), 1)
		}
		return r
	case OMake:
		return t.Args[0]
	case OSub:
		return u.Add(t.Args[2], t.Args[1], -1)
	case OMEmpty:
		return u.Int(0)
	}
	return u.mk(Term{Op: OLen, Args: []*Term{t}, Typ: types.Typ[types.Int]})
}

// Sub makes t[lo:hi].
func (u *Universe) Sub(t, lo, hi *Term) *Term {
	if lo == nil {
		lo = u.Int(0)
	}
	if hi == nil {
		hi = u.Len(t)
	}
	if z, ok := lo.IntVal(); ok && z == 0 && hi == u.Len(t) {
		return t
	}
	l, ok1 := lo.IntVal()
	h, ok2 := hi.IntVal()
	// s[:index(s, sep)] and s[index(s, sep)+len(sep):]
	if ok1 && l == 0 && hi.Op == OApp && hi.Aux == "index" && hi.Args[0] == t {
		return u.App("before", types.Typ[types.String], t, hi.Args[1])
	}
	if hi == u.Len(t) {
		var ix *Term
		lo.Walk(func(x *Term) bool {
			if x.Op == OApp && x.Aux == "index" && x.Args[0] == t {
				ix = x
			}
			return true
		})
		if ix != nil && lo == u.Add(ix, u.Len(ix.Args[1]), 1) {
			return u.App("after", types.Typ[types.String], t, ix.Args[1])
		}
	}
	if ok1 && ok2 {
		if s, ok := t.StrVal(); ok && 0 <= l && l <= h && h <= int64(len(s)) {
			return u.Str(s[l:h])
		}
		if t.Op == OList && 0 <= l && l <= h && h <= int64(len(t.Args)) {
			return u.List(t.Typ, t.Args[l:h]...)
		}
	}
	if t.Op == OSub {
		return u.Sub(t.Args[0], u.Add(t.Args[1], lo, 1), u.Add(t.Args[1], hi, 1))
	}
	// dropping a literal tail: cat(a, [x])[:len(a)] == a
	if t.Op == OCat && ok1 && l == 0 {
		n := u.Len(t)
		for k := len(t.Args) - 1; k > 0; k-- {
			n = u.Add(n, u.Len(t.Args[k]), -1)
			if n == hi {
				if k == 1 {
					return t.Args[0]
				}
				return u.mk(Term{Op: OCat, Args: t.Args[:k], Typ: t.Typ})
			}
		}
	}
	return u.mk(Term{Op: OSub, Args: []*Term{t, lo, hi}, Typ: t.Typ})
}

// Field projects field i of struct value t.
func (u *Universe) Field(t *Term, i int, typ types.Type) *Term {
	switch t.Op {
	case OStruct:
		if i < len(t.Args) {
			return t.Args[i]
		}
	case OInit:
		return u.mk(Term{Op: OInit, Aux: t.Aux, Args: []*Term{u.FieldAddr(t.Args[0], i, typ)}, Typ: typ})
	}
	return u.mk(Term{Op: OField, Idx: i, Args: []*Term{t}, Typ: typ})
}

// Struct makes a struct value.
func (u *Universe) Struct(typ types.Type, fs ...*Term) *Term {
	// recompose init(&A.0..n) into init(A), and field(x,0..n) into x
	if len(fs) > 0 {
		same := true
		var base *Term
		ver := ""
		for i, f := range fs {
			var b *Term
			switch {
			case f.Op == OInit && f.Args[0].Op == OFieldAddr && f.Args[0].Idx == i:
				b = u.mk(Term{Op: OInit, Aux: f.Aux, Args: []*Term{f.Args[0].Args[0]}, Typ: typ})
				ver = f.Aux
			case f.Op == OField && f.Idx == i:
				b = f.Args[0]
			}
			_ = ver
			if b == nil || (base != nil && b != base) {
				same = false
				break
			}
			base = b
		}
		if same && structLen(typ) == len(fs) {
			return base
		}
	}
	return u.mk(Term{Op: OStruct, Args: fs, Typ: typ, Aux: typeKey(typ)})
}

func structLen(t types.Type) int {
	if s, ok := t.Underlying().(*types.Struct); ok {
		return s.NumFields()
	}
	return -1
}

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (u *Universe) FieldAddr(p *Term, i int, ft types.Type) *Term {
	return u.mk(Term{Op: OFieldAddr, Idx: i, Args: []*Term{p}, Typ: types.NewPointer(ft)})
}

func (u *Universe) IndexAddr(l, i *Term, et types.Type) *Term {
	if l.Op == OSub {
		return u.IndexAddr(l.Args[0], u.Add(l.Args[1], i, 1), et)
	}
	return u.mk(Term{Op: OIndexAddr, Args: []*Term{l, i}, Typ: types.NewPointer(et)})
}

// Concat makes a string concatenation.
func (u *Universe) Concat(parts ...*Term) *Term {
	var segs []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if s, ok := t.StrVal(); ok {
			if s == "" {
				return
			}
			if n := len(segs); n > 0 {
				if p, ok := segs[n-1].StrVal(); ok {
					segs[n-1] = u.Str(p + s)
					return
				}
			}
		}
		if t.Op == OMake && t.Args[0].IsConst() && t.Args[0].Aux == "n:0" || t.Op == OList && len(t.Args) == 0 {
			return
		}
		if t.Op == OConcat {
			for _, a := range t.Args {
				add(a)
			}
			return
		}
		segs = append(segs, t)
	}
	for _, p := range parts {
		add(p)
	}
	if len(segs) == 0 {
		return u.Str("")
	}
	if len(segs) == 1 {
		return segs[0]
	}
	return u.mk(Term{Op: OConcat, Args: segs, Typ: types.Typ[types.String]})
}

// Map rebuilds t with f applied to leaves that f wants to replace (f returns nil to recurse).
func (u *Universe) Map(t *Term, f func(*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		if r := f(t); r != nil {
			memo[t] = r
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		ch := false
		na := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			na[i] = rec(a)
			ch = ch || na[i] != a
		}
		r := t
		if ch {
			r = u.Rebuild(t, na)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// Rebuild makes a term like t with other arguments, re-normalising it.
func (u *Universe) Rebuild(t *Term, na []*Term) *Term {
	switch t.Op {
	case OLin:
		l := linear{m: map[*Term]int64{}, c: t.C}
		for i, a := range na {
			l.add(a, t.Coef[i])
		}
		return u.fromLinear(l, t.Typ)
	case OLe:
		return u.leZ(toLinear(na[0]))
	case OEq:
		return u.Eq(na[0], na[1])
	case OLen:
		return u.Len(na[0])
	case OSub:
		return u.Sub(na[0], na[1], na[2])
	case OCat:
		return u.Cat(t.Typ, na...)
	case OConcat:
		return u.Concat(na...)
	case OField:
		return u.Field(na[0], t.Idx, t.Typ)
	case OStruct:
		return u.Struct(t.Typ, na...)
	case OIndexAddr:
		return u.IndexAddr(na[0], na[1], derefT(t.Typ))
	case OInit:
		n := *t
		n.Args = na
		return u.mk(n)
	case OApp:
		if t.Aux == "!" {
			return u.Not(na[0])
		}
		if t.Aux == "reflect.DeepEqual" {
			na = order(na[0], na[1])
		}
	}
	n := *t
	n.Args = na
	return u.mk(n)
}

func derefT(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// Walk visits all subterms.
func (t *Term) Walk(f func(*Term) bool) {
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if !f(x) {
			return
		}
		for _, a := range x.Args {
			rec(a)
		}
	}
	rec(t)
}

// Contains reports whether x occurs in t.
func (t *Term) Contains(x *Term) bool {
	r := false
	t.Walk(func(y *Term) bool {
		if y == x {
			r = true
		}
		return !r
	})
	return r
}

// Any reports whether any subterm satisfies p.
func (t *Term) Any(p func(*Term) bool) bool {
	r := false
	t.Walk(func(y *Term) bool {
		if p(y) {
			r = true
		}
		return !r
	})
	return r
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 14 {
		return "..."
	}
	args := func() string {
		var s []string
		for _, a := range t.Args {
			s = append(s, a.str(d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case OConst:
		if s, ok := t.StrVal(); ok {
			return strconv.Quote(s)
		}
		return strings.TrimPrefix(strings.TrimPrefix(t.Aux, "n:"), "b:")
	case OParam:
		return t.Aux
	case OApp:
		if t.Aux == "!" {
			return "!" + t.Args[0].str(d+1)
		}
		return t.Aux + "(" + args() + ")"
	case ORes:
		if len(t.Args) > 0 {
			return fmt.Sprintf("res%d<%s>(%s)", t.Idx, t.Aux, args())
		}
		return fmt.Sprintf("res%d<%s>", t.Idx, t.Aux)
	case OStruct:
		return shortType(t.Typ) + "{" + args() + "}"
	case OField:
		return t.Args[0].str(d+1) + "." + fieldName(t.Args[0].Typ, t.Idx)
	case OAlloc:
		return "new" + t.Aux
	case OGlobal:
		return "&" + t.Aux
	case OFieldAddr:
		return "&" + strings.TrimPrefix(t.Args[0].str(d+1), "&") + "." + fieldName(derefT(t.Args[0].Typ), t.Idx)
	case OIndexAddr:
		return "&" + t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case OInit:
		s := t.Args[0].str(d + 1)
		if strings.HasPrefix(s, "&") {
			s = s[1:]
		} else {
			s = "*" + s
		}
		if t.Aux != "" {
			s += "@" + t.Aux
		}
		return s
	case OList:
		return "[" + args() + "]"
	case OCat:
		return "cat(" + args() + ")"
	case OSub:
		return t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + ":" + t.Args[2].str(d+1) + "]"
	case OMake:
		return "make" + t.Aux + "(" + args() + ")"
	case OLen:
		return "len(" + args() + ")"
	case OLin:
		var s []string
		for i, a := range t.Args {
			switch t.Coef[i] {
			case 1:
				s = append(s, "+"+a.str(d+1))
			case -1:
				s = append(s, "-"+a.str(d+1))
			default:
				s = append(s, fmt.Sprintf("%+d*%s", t.Coef[i], a.str(d+1)))
			}
		}
		if t.C != 0 {
			s = append(s, fmt.Sprintf("%+d", t.C))
		}
		return "(" + strings.TrimPrefix(strings.Join(s, ""), "+") + ")"
	case OLe:
		return t.Args[0].str(d+1) + "<=0"
	case OEq:
		return t.Args[0].str(d+1) + "==" + t.Args[1].str(d+1)
	case OMap:
		return "map" + t.Aux
	case OMEmpty:
		return "{}"
	case OMInit:
		return "contents(" + args() + ")" + t.Aux
	case OMStore:
		return t.Args[0].str(d+1) + "+{" + t.Args[1].str(d+1) + ":" + t.Args[2].str(d+1) + "}"
	case OMGet:
		return t.Args[0].str(d+1) + "[[" + t.Args[1].str(d+1) + "]]"
	case OMHas:
		return t.Args[1].str(d+1) + " in " + t.Args[0].str(d+1)
	case OLV:
		return "lv" + t.Aux
	case OLX:
		return fmt.Sprintf("lx%s.%d", t.Aux, t.Idx)
	case OIface:
		return "iface<" + shortType(t.Typ) + ">(" + args() + ")"
	case OUnwrap:
		return args() + ".(" + shortType(t.Typ) + ")"
	case OTypeIs:
		return args() + " is " + t.Aux
	case OFunc:
		return "func:" + t.Fn.String()
	case OClosure:
		return "closure:" + t.Fn.String() + "{" + args() + "}"
	case OConcat:
		return "concat(" + args() + ")"
	case OFmt:
		return t.Aux + "(" + args() + ")"
	}
	return opNames[t.Op] + t.Aux + "(" + args() + ")"
}

func shortType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func fieldName(t types.Type, i int) string {
	t = derefT(t)
	if t != nil {
		if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
			return s.Field(i).Name()
		}
	}
	return fmt.Sprintf("f%d", i)
}

// FieldNameOf names field i of (pointer to) struct type t.
func FieldNameOf(t types.Type, i int) string { return fieldName(t, i) }

// Iface is an interface value holding x.
func (u *Universe) Iface(t types.Type, x *Term) *Term {
	return u.mk(Term{Op: OIface, Typ: t, Args: []*Term{x}})
}
