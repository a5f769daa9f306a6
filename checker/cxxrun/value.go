package cxxrun

import (
	"fmt"
	"sort"
	"strings"
)

type Kind int

const (
	Undef Kind = iota
	Void
	Int
	Float
	Bool
	Str
	Enum
	Null
	ObjK  // an object
	Ref   // an lvalue
	PtrK  // a pointer to a cell
	Func  // a function
	SymK  // an input
	Cmp   // the order of two texts
	Text  // text that was streamed
	Vec   // a vector or an array
	Other // anything else, by name
)

// Value is a C++ value.
type Value struct {
	K    Kind
	I    int64
	F    float64
	S    string
	T    string // the type
	O    *Object
	C    *Cell
	N    *Node
	Sym  *Sym
	L, R *Value
	Its  []Item
	Vs   []*Cell
	Tag  *Conv
}

// Conv says that a value is what the conversion of a channel made.
type Conv struct {
	Name string
	Arg  Value
}

// Sym is a value that comes from outside.
type Sym struct {
	Name  string
	Type  string
	Bound *Value
	Neq   []Value
}

type Cell struct {
	V    Value
	Name string
}

type Object struct {
	Type   string
	Fields map[string]*Cell
	Items  []Item // of a stream
	Tag    any    // of an object from outside
	id     int
}

// Item is a thing that was streamed.
type Item struct {
	Text string
	Sym  *Sym
	Conv *Conv
	Val  Value
}

func (v Value) String() string {
	switch v.K {
	case Undef:
		return "(not initialised)"
	case Int:
		return fmt.Sprint(v.I)
	case Bool:
		if v.I != 0 {
			return "true"
		}
		return "false"
	case Float:
		return fmt.Sprint(v.F)
	case Str:
		return fmt.Sprintf("%q", v.S)
	case Enum:
		return v.T + "::" + v.S
	case SymK:
		if v.Sym.Bound != nil {
			return v.Sym.Bound.String()
		}
		return v.Sym.String()
	case Null:
		return "null"
	case Text:
		return fmt.Sprintf("%q", TextOf(v.Its))
	case ObjK:
		return v.O.Type
	case Void:
		return "nothing"
	}
	return fmt.Sprintf("value of type %s", v.T)
}

func (s *Sym) String() string {
	if s.Bound != nil {
		return s.Bound.String()
	}
	if len(s.Neq) == 0 {
		return "any value"
	}
	var ss []string
	for _, v := range s.Neq {
		ss = append(ss, v.String())
	}
	sort.Strings(ss)
	return "a value other than " + strings.Join(ss, ", ")
}

// TextOf is the text of streamed items; inputs are shown as <...>.
func TextOf(its []Item) string {
	var b strings.Builder
	for _, i := range its {
		switch {
		case i.Sym != nil:
			b.WriteString("<" + i.Sym.String() + ">")
		default:
			b.WriteString(i.Text)
		}
	}
	return b.String()
}

// same compares two known values.
func same(a, b Value) (eq, ok bool) {
	num := func(v Value) (float64, bool) {
		switch v.K {
		case Int, Bool:
			return float64(v.I), true
		case Float:
			return v.F, true
		}
		return 0, false
	}
	if a.K == Text && onlyText(a.Its) {
		a = Value{K: Str, S: TextOf(a.Its)}
	}
	if b.K == Text && onlyText(b.Its) {
		b = Value{K: Str, S: TextOf(b.Its)}
	}
	if a.K == Str && b.K == Str {
		return a.S == b.S, true
	}
	if a.K == Enum && b.K == Enum {
		return a.I == b.I, true
	}
	if a.K == Int && b.K == Int {
		return a.I == b.I, true
	}
	if x, ok := num(a); ok {
		if y, ok := num(b); ok {
			return x == y, true
		}
	}
	ptr := func(v Value) bool { return v.K == PtrK || v.K == Null || v.K == Func }
	if ptr(a) && ptr(b) {
		return a.K == b.K && a.C == b.C && a.O == b.O && a.N == b.N, true
	}
	return false, false
}

func onlyText(its []Item) bool {
	for _, i := range its {
		if i.Sym != nil {
			return false
		}
	}
	return true
}

// Same reports whether two known values are equal.
func Same(a, b Value) bool {
	eq, ok := same(a, b)
	return ok && eq
}
