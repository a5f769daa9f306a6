package absint

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"
	"unicode"
)

// Facts is a conjunction of literals over terms.
type Facts struct {
	lit  map[*Term]bool // atom -> truth
	le   []linear       // each linear is <= 0
	seq  []*Term        // atoms in the order they were learned (negated ones wrapped in "!")
	dead bool
}

func newFacts() *Facts { return &Facts{lit: map[*Term]bool{}} }

func (f *Facts) clone() *Facts {
	n := &Facts{lit: make(map[*Term]bool, len(f.lit)), le: append([]linear{}, f.le...), seq: append([]*Term{}, f.seq...), dead: f.dead}
	for k, v := range f.lit {
		n.lit[k] = v
	}
	return n
}

// Tri is a three-valued truth value.
type Tri int

const (
	Unknown Tri = iota
	True
	False
)

func triNot(t Tri) Tri {
	switch t {
	case True:
		return False
	case False:
		return True
	}
	return Unknown
}

// Decide decides a boolean term under the facts.
func (f *Facts) Decide(u *Universe, c *Term) Tri {
	if b, ok := c.BoolVal(); ok {
		if b {
			return True
		}
		return False
	}
	if c.Op == OApp && c.Aux == "!" {
		return triNot(f.Decide(u, c.Args[0]))
	}
	if v, ok := f.lit[c]; ok {
		if v {
			return True
		}
		return False
	}
	switch c.Op {
	case OLe:
		l := toLinear(c.Args[0])
		if f.proveLe(u, l) {
			return True
		}
		if f.proveLe(u, negPlus1(l)) {
			return False
		}
	case OEq:
		a, b := c.Args[0], c.Args[1]
		if c.Aux == "int" {
			l := toLinear(a)
			le := f.proveLe(u, l)
			ge := f.proveLe(u, neg(l))
			if le && ge {
				return True
			}
			if f.proveLe(u, negPlus1(l)) || f.proveLe(u, plus(l, 1)) {
				return False
			}
			return Unknown
		}
		// x == c known excludes x == c'
		if b.IsConst() {
			for k, v := range f.lit {
				if v && k.Op == OEq && k.Aux != "int" && k.Args[0] == a && k.Args[1].IsConst() && k.Args[1] != b {
					return False
				}
			}
			if s, ok := b.StrVal(); ok && s == "" {
				// "" as a length question
				if t := f.Decide(u, u.Eq(u.Len(a), u.Int(0))); t != Unknown {
					return t
				}
				if a.Op == OConcat {
					for _, p := range a.Args {
						if ps, ok := p.StrVal(); ok && ps != "" {
							return False
						}
					}
				}
			}
			if b.IsNil() {
				if f.isNonNil(u, a) {
					return False
				}
			}
		}
		if b.IsConst() && a.Op == OInit && u.visited != nil && strings.HasPrefix(a.Aux, "@") {
			if t := u.visited(f, a, b); t != Unknown {
				return t
			}
		}
		// through equal constants
		if ca, ok := f.constOf(a); ok {
			if cb, ok := f.constOf(b); ok {
				if ca == cb {
					return True
				}
				return False
			}
		}
	case OTypeIs:
		for k, v := range f.lit {
			if v && k.Op == OTypeIs && k.Args[0] == c.Args[0] && k.Aux != c.Aux {
				return False
			}
		}
	case OMHas:
		// handled by the interpreter
	}
	return Unknown
}

func (f *Facts) isNonNil(u *Universe, a *Term) bool {
	if nonNil(a) {
		return true
	}
	if v, ok := f.lit[u.mk(Term{Op: OEq, Args: []*Term{a, u.Nil()}})]; ok && !v {
		return true
	}
	if a.Typ == nil {
		return false
	}
	if u.holds != nil && u.holds(f, a) {
		return true
	}
	switch a.Typ.Underlying().(type) {
	case *types.Slice:
		// a list of provably positive length is not nil
		if f.proveLe(u, plus(neg(toLinear(u.Len(a))), 1)) {
			return true
		}
	}
	return false
}

// constOf gets the constant that a is known to equal.
func (f *Facts) constOf(a *Term) (*Term, bool) {
	if a.IsConst() {
		return a, true
	}
	for k, v := range f.lit {
		if v && k.Op == OEq && k.Aux != "int" && k.Args[0] == a && k.Args[1].IsConst() {
			return k.Args[1], true
		}
	}
	return nil, false
}

// Canon replaces t by a constant it is known to equal.
func (f *Facts) Canon(u *Universe, t *Term) *Term {
	if c, ok := f.constOf(t); ok {
		return c
	}
	if isBool(t.Typ) && !t.IsConst() {
		switch f.Decide(u, t) {
		case True:
			return u.Bool(true)
		case False:
			return u.Bool(false)
		}
	}
	if t.Op == OStruct {
		ch := false
		na := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			na[i] = f.Canon(u, a)
			ch = ch || na[i] != a
		}
		if ch {
			return u.Struct(t.Typ, na...)
		}
	}
	return t
}

// Assume adds a literal; it returns false if the facts become contradictory.
func (f *Facts) Assume(u *Universe, c *Term, val bool) bool {
	for c.Op == OApp && c.Aux == "!" {
		c, val = c.Args[0], !val
	}
	switch f.Decide(u, c) {
	case True:
		if !val {
			f.dead = true
		}
		return val
	case False:
		if val {
			f.dead = true
		}
		return !val
	}
	f.lit[c] = val
	if val {
		f.seq = append(f.seq, c)
	} else {
		f.seq = append(f.seq, u.Not(c))
	}
	switch c.Op {
	case OLe:
		l := toLinear(c.Args[0])
		if !val {
			l = negPlus1(l)
		}
		f.addLe(u, l)
	case OEq:
		if c.Aux == "int" {
			l := toLinear(c.Args[0])
			if val {
				f.addLe(u, l)
				f.addLe(u, neg(l))
			} else {
				f.tighten(u)
			}
		} else {
			a, b := c.Args[0], c.Args[1]
			if val && a.Op == OStruct && b.Op == OStruct {
				for i := range a.Args {
					if !f.Assume(u, u.Eq(a.Args[i], b.Args[i]), true) {
						return false
					}
				}
			}
			if s, ok := b.StrVal(); ok && s == "" {
				return f.Assume(u, u.Eq(u.Len(a), u.Int(0)), val)
			}
			if b.IsNil() && val && a.Typ != nil {
				switch a.Typ.Underlying().(type) {
				case *types.Slice:
					return f.Assume(u, u.Eq(u.Len(a), u.Int(0)), true)
				}
			}
		}
	}
	return !f.dead
}

func (f *Facts) addLe(u *Universe, l linear) {
	f.le = append(f.le, l)
	f.tighten(u)
}

// tighten uses recorded disequalities to sharpen bounds.
func (f *Facts) tighten(u *Universe) {
	for k, v := range f.lit {
		if v || k.Op != OEq || k.Aux != "int" {
			continue
		}
		l := toLinear(k.Args[0])
		if f.proveLe(u, l) && !f.proveLe(u, plus(l, 1)) {
			f.le = append(f.le, plus(l, 1))
		}
		if n := neg(l); f.proveLe(u, n) && !f.proveLe(u, plus(n, 1)) {
			f.le = append(f.le, plus(n, 1))
		}
	}
}

func neg(l linear) linear {
	n := linear{m: map[*Term]int64{}, c: -l.c}
	for k, c := range l.m {
		n.m[k] = -c
	}
	return n
}
func plus(l linear, k int64) linear {
	n := linear{m: map[*Term]int64{}, c: l.c + k}
	for t, c := range l.m {
		n.m[t] = c
	}
	return n
}
func negPlus1(l linear) linear { return plus(neg(l), 1) }

// proveLe proves l <= 0 by Fourier-Motzkin elimination on the relevant facts.
func (f *Facts) proveLe(u *Universe, l linear) bool {
	if len(l.m) == 0 {
		return l.c <= 0
	}
	// refute: l >= 1, i.e. -l + 1 <= 0
	goal := negPlus1(l)
	sys := []linear{goal}
	vars := map[*Term]bool{}
	var queue []*Term
	push := func(m linear) {
		for k := range m.m {
			if !vars[k] {
				vars[k] = true
				queue = append(queue, k)
			}
		}
	}
	push(goal)
	used := make([]bool, len(f.le))
	for len(queue) > 0 {
		v := queue[0]
		queue = queue[1:]
		if nonNegTerm(v) {
			sys = append(sys, linear{m: map[*Term]int64{v: -1}, c: leastLen(v)})
		}
		if v.Op == OField || v.Op == OInit || v.Op == OParam || v.Op == OLV || v.Op == OLX {
			if b, ok := maxOf(v.Typ); ok {
				sys = append(sys, linear{m: map[*Term]int64{v: 1}, c: -b})
			}
		}
		for i, x := range f.le {
			if !used[i] {
				if _, ok := x.m[v]; ok {
					used[i] = true
					sys = append(sys, x)
					push(x)
				}
			}
		}
		if len(sys) > 40 {
			break
		}
	}
	var vs []*Term
	for v := range vars {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].ID < vs[j].ID })
	for _, v := range vs {
		var pos, ng, rest []linear
		for _, x := range sys {
			switch c := x.m[v]; {
			case c > 0:
				pos = append(pos, x)
			case c < 0:
				ng = append(ng, x)
			default:
				rest = append(rest, x)
			}
		}
		if len(pos)*len(ng) > 400 {
			sys = rest
			continue
		}
		for _, p := range pos {
			for _, n := range ng {
				a, b := p.m[v], -n.m[v]
				c := linear{m: map[*Term]int64{}, c: b*p.c + a*n.c}
				for k, x := range p.m {
					c.m[k] += b * x
				}
				for k, x := range n.m {
					c.m[k] += a * x
				}
				for k, x := range c.m {
					if x == 0 {
						delete(c.m, k)
					}
				}
				if len(c.m) == 0 {
					if c.c > 0 {
						return true
					}
					continue
				}
				rest = append(rest, c)
			}
		}
		sys = rest
		for _, x := range sys {
			if len(x.m) == 0 && x.c > 0 {
				return true
			}
		}
	}
	return false
}

func maxOf(t types.Type) (int64, bool) {
	if t == nil {
		return 0, false
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
		return 255, true
	}
	return 0, false
}

func nonNegTerm(v *Term) bool {
	return v.Op == OLen || isUnsigned(v.Typ) || v.Op == OApp && strings.HasPrefix(v.Aux, "copy#")
}

// Infeasible reports whether the linear facts contradict each other (used by queries).
func (f *Facts) Infeasible(u *Universe) bool {
	if f.dead {
		return true
	}
	for _, l := range f.le {
		if f.proveLe(u, negPlus1(l)) {
			return true
		}
	}
	// character classes of known characters
	for t, v := range f.lit {
		if t.Op == OApp && len(t.Args) == 1 && strings.HasPrefix(t.Aux, "unicode.Is") {
			if c, ok := f.intOf(t.Args[0]); ok {
				if w, ok := foldRune(t.Aux, c); ok && w != v {
					return true
				}
			}
		}
	}
	return false
}

// intOf finds the value of an integer term whose bounds meet.
func (f *Facts) intOf(x *Term) (int64, bool) {
	if c, ok := x.IntVal(); ok {
		return c, true
	}
	var lo, hi int64
	var hasLo, hasHi bool
	for _, l := range f.le {
		k, ok := l.m[x]
		if !ok || len(l.m) != 1 {
			continue
		}
		switch k {
		case 1: // x + c <= 0
			if b := -l.c; !hasHi || b < hi {
				hi, hasHi = b, true
			}
		case -1:
			if b := l.c; !hasLo || b > lo {
				lo, hasLo = b, true
			}
		}
	}
	return lo, hasLo && hasHi && lo == hi
}

func foldRune(name string, c int64) (v, ok bool) {
	r := rune(c)
	switch name {
	case "unicode.IsUpper":
		return unicode.IsUpper(r), true
	case "unicode.IsLower":
		return unicode.IsLower(r), true
	case "unicode.IsLetter":
		return unicode.IsLetter(r), true
	case "unicode.IsDigit":
		return unicode.IsDigit(r), true
	case "unicode.IsSpace":
		return unicode.IsSpace(r), true
	}
	return false, false
}

// List lists the literals in the order they were learned.
func (f *Facts) List() []*Term { return f.seq }

// Holds reports whether the literal is known.
func (f *Facts) Holds(u *Universe, c *Term) bool { return f.Decide(u, c) == True }

// NonNil reports whether a is known not to be nil.
func (f *Facts) NonNil(u *Universe, a *Term) bool { return f.isNonNil(u, a) }

// leastLen is the least length that the results of some functions have.
func leastLen(v *Term) int64 {
	if v.Op == OLen && v.Args[0].Op == OApp && strings.HasPrefix(v.Args[0].Aux, "strconv.Quote") {
		return 2 // the quotes
	}
	return 0
}

// Runes puts in the characters that are known, and works out what is made of them.
func (f *Facts) Runes(u *Universe, t *Term) *Term {
	some := false
	t.Walk(func(x *Term) bool {
		if x.Op == OApp && len(x.Args) == 1 && (x.Aux == "runestr" || strings.HasPrefix(x.Aux, "unicode.")) {
			some = true
		}
		return !some
	})
	if !some {
		return t
	}
	var fold func(x *Term) *Term
	fold = func(x *Term) *Term {
		if x.Op != OApp || len(x.Args) != 1 || x.Aux != "runestr" && !strings.HasPrefix(x.Aux, "unicode.") {
			return nil
		}
		a := u.Map(x.Args[0], fold)
		c, ok := f.intOf(a)
		if !ok {
			if a == x.Args[0] {
				return x
			}
			return u.App(x.Aux, x.Typ, a)
		}
		switch x.Aux {
		case "runestr":
			return u.Str(string(rune(c)))
		case "unicode.ToLower":
			return u.Const(constant.MakeInt64(int64(unicode.ToLower(rune(c)))), x.Typ)
		case "unicode.ToUpper":
			return u.Const(constant.MakeInt64(int64(unicode.ToUpper(rune(c)))), x.Typ)
		}
		if v, ok := foldRune(x.Aux, c); ok {
			return u.Bool(v)
		}
		return x
	}
	return u.Map(t, fold)
}
