package cxxrun

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Stop ends a run from inside; the reason is for whoever started it.
type Stop struct{ Why any }

// Undecided is what the interpreter cannot tell.
type Undecided struct {
	Msg  string
	File string
	Line int
}

func (u *Undecided) Error() string { return fmt.Sprintf("%s:%d: %s", u.File, u.Line, u.Msg) }

// Pending is a choice that a run did not make.
type Pending struct{ N int }

// Callback is a subscription or a timer.
type Callback struct {
	Kind   string // "topic" or "timer"
	Topic  string
	Period float64
	Fn     *Node
	This   Value
	Param  string // the type of the parameter
	Node   *Node
}

// Published is a message that was sent.
type Published struct {
	Topic string
	Msg   Value
	Node  *Node
}

// Line is one line of output.
type Line struct {
	Its  []Item
	Node *Node
}

// Machine is one run of a program.
type Machine struct {
	P      *Program
	Script []int
	Used   int
	Steps  int
	Limit  int

	Read  func(m *Machine, typ string, n *Node) Value // an input of a type is read
	Spin  func(m *Machine, once bool, n *Node)        // callbacks are waited for
	Known func(name string) bool                      // conversions that are tagged
	Convs func(m *Machine, fn *Node, args []Value) (Value, bool)

	Lines     []Line
	Published []Published
	Callbacks []*Callback
	Down      bool
	Nodes     int

	globals map[string]*Cell
	streams map[string]*Object
	frames  []*frame
	objs    int
	At      *Node // the statement that is being executed
	Touched map[*Node]bool
}

type frame struct {
	fn   *Node
	this *Object
	vars map[*Node]*Cell
	at   *Node
	ret  Value
}

type ctl int

const (
	next ctl = iota
	brk
	cont
	ret
)

func NewMachine(p *Program) *Machine {
	return &Machine{P: p, Limit: 400000, globals: map[string]*Cell{}, streams: map[string]*Object{}, Touched: map[*Node]bool{}}
}

func (m *Machine) fail(n *Node, format string, a ...any) {
	u := &Undecided{Msg: fmt.Sprintf(format, a...)}
	if n == nil || n.Line == 0 {
		n = m.At
	}
	if n != nil {
		u.File, u.Line = n.File, n.Line
	}
	panic(u)
}

// Choose picks one of n ways to go on.
func (m *Machine) Choose(n int) int {
	if n == 1 {
		return 0
	}
	if m.Used < len(m.Script) {
		m.Used++
		return m.Script[m.Used-1]
	}
	panic(&Pending{n})
}

// Replaying reports whether the run still follows its script.
func (m *Machine) Replaying() bool { return m.Used < len(m.Script) }

func (m *Machine) NewObject(t string) *Object {
	m.objs++
	return &Object{Type: t, Fields: map[string]*Cell{}, id: m.objs}
}

// Main runs the program; it returns its exit code.
func (m *Machine) Main() Value {
	ms := m.P.Funcs["main"]
	if len(ms) != 1 {
		panic(&Undecided{Msg: "no main"})
	}
	var args []Value
	for range ms[0].params() {
		args = append(args, Value{K: Other, T: "argument"})
	}
	v := m.Call(ms[0], nil, args, ms[0])
	if v.K == Void || v.K == Undef {
		v = Value{K: Int}
	}
	return v
}

// Call runs a function that has a body.
func (m *Machine) Call(fn *Node, this *Object, args []Value, at *Node) Value {
	def := m.P.definition(fn)
	if def == nil {
		m.fail(at, "what %s does is not known", fn.Name)
	}
	if len(m.frames) > 200 {
		m.fail(at, "%s calls itself without end", fn.Name)
	}
	f := &frame{fn: def, this: this, vars: map[*Node]*Cell{}, at: at}
	for i, p := range def.params() {
		if i >= len(args) {
			m.fail(at, "%s is called with too few arguments", fn.Name)
		}
		f.vars[p] = m.bind(p, args[i])
	}
	m.frames = append(m.frames, f)
	m.Touched[def] = true
	if def.Kind == "CXXConstructorDecl" {
		m.inits(def, this)
	}
	m.stmt(def.body())
	m.frames = m.frames[:len(m.frames)-1]
	return f.ret
}

// bind makes the cell of a variable from its initial value.
func (m *Machine) bind(p *Node, v Value) *Cell {
	if isRef(p.Type.String()) || isRef(p.Type.Qual) {
		if v.K == Ref {
			return &Cell{V: v, Name: p.Name}
		}
		return &Cell{V: Value{K: Ref, C: &Cell{V: v, Name: p.Name}}, Name: p.Name}
	}
	return &Cell{V: m.copy(m.rvalue(v)), Name: p.Name}
}

func isRef(t string) bool { return strings.HasSuffix(strings.TrimSpace(t), "&") }

// copy copies objects, which are values in C++.
func (m *Machine) copy(v Value) Value {
	switch v.K {
	case ObjK:
		o := m.NewObject(v.O.Type)
		o.Tag = v.O.Tag
		o.Items = append(o.Items, v.O.Items...)
		for k, c := range v.O.Fields {
			o.Fields[k] = &Cell{V: m.copy(c.V), Name: c.Name}
		}
		v.O = o
	case Vec:
		vs := make([]*Cell, len(v.Vs))
		for i, c := range v.Vs {
			vs[i] = &Cell{V: m.copy(c.V)}
		}
		v.Vs = vs
	}
	return v
}

func (m *Machine) rvalue(v Value) Value {
	for v.K == Ref {
		v = v.C.V
	}
	if v.K == SymK && v.Sym.Bound != nil {
		t, tag := v.T, v.Tag
		v = *v.Sym.Bound
		v.T, v.Tag = t, tag
	}
	return v
}

// field is the cell of a field.
func (m *Machine) field(o *Object, key string) *Cell {
	c := o.Fields[key]
	if c == nil {
		c = &Cell{Name: key}
		o.Fields[key] = c
	}
	return c
}

// fieldKey is the name of a field together with its class.
func (m *Machine) fieldKey(f *Node) string {
	return m.P.QName(f)
}

// bases lists the base classes of a class that are known.
func (m *Machine) bases(rec *Node) (bs []*Node) {
	for _, b := range rec.Bases {
		if r := m.record(b.Type.String()); r != nil {
			bs = append(bs, r)
		}
	}
	return
}

func (m *Machine) record(t string) *Node {
	t = plain(t)
	if r := m.P.Records[t]; r != nil {
		return r
	}
	return nil
}

// inits runs the initialisers of a constructor.
func (m *Machine) inits(ctor *Node, this *Object) {
	rec := m.recordOf(ctor)
	done := map[string]bool{}
	for _, i := range ctor.Inner {
		if i.Kind != "CXXCtorInitializer" || len(i.Inner) == 0 {
			continue
		}
		e := i.Inner[0]
		if i.AnyInit == nil {
			m.construct(e, this)
			if i.BaseInit != nil {
				done[plain(i.BaseInit.String())] = true
			}
			continue
		}
		f := ctor.find(i.AnyInit.ID)
		if f == nil {
			m.fail(i, "initialises a field that is not known")
		}
		done[m.fieldKey(f)] = true
		if e.Kind == "CXXDefaultInitExpr" {
			m.defaultInit(f, this)
			continue
		}
		c := m.field(this, m.fieldKey(f))
		if isRef(f.Type.Qual) {
			c.V = m.eval(e)
		} else {
			c.V = m.copy(m.rvalue(m.eval(e)))
		}
	}
	if rec == nil {
		return
	}
	// What has no initialiser keeps what it says itself.
	for _, b := range m.bases(rec) {
		if !done[m.P.QName(b)] {
			m.implicit(b, this)
		}
	}
	for _, f := range rec.Inner {
		if f.Kind == "FieldDecl" && !done[m.fieldKey(f)] {
			m.defaultInit(f, this)
		}
	}
}

func (m *Machine) recordOf(n *Node) *Node {
	if n.Parent != "" {
		if u := n.tu.byID[n.Parent]; u != nil {
			return u
		}
	}
	if n.Previous != "" {
		if u := n.tu.byID[n.Previous]; u != nil {
			return m.recordOf(u)
		}
	}
	for u := n.up; u != nil; u = u.up {
		if u.Kind == "CXXRecordDecl" {
			return u
		}
	}
	return nil
}

func (m *Machine) defaultInit(f *Node, this *Object) {
	c := m.field(this, m.fieldKey(f))
	for _, i := range f.Inner {
		if isAttr(i.Kind) {
			continue
		}
		m.frames = append(m.frames, &frame{fn: f, this: this, vars: map[*Node]*Cell{}})
		c.V = m.copy(m.rvalue(m.eval(i)))
		m.frames = m.frames[:len(m.frames)-1]
		return
	}
	c.V = m.zero(f.Type, false)
}

func isAttr(k string) bool { return strings.HasSuffix(k, "Attr") || strings.HasSuffix(k, "Comment") }

// zero is the value of a variable without an initialiser.
func (m *Machine) zero(t Type, value bool) Value {
	d, q := plain(t.String()), plain(t.Qual)
	if r := m.record(d); r != nil {
		o := m.NewObject(m.P.QName(r))
		m.implicit(r, o)
		return Value{K: ObjK, O: o, T: d}
	}
	switch {
	case isString(d) || isString(q):
		return Value{K: Str, T: d}
	case strings.Contains(d, "stringstream"):
		return Value{K: ObjK, O: m.NewObject("stream"), T: d}
	case strings.HasPrefix(d, "std::vector"):
		return Value{K: Vec, T: d}
	}
	if !value {
		if strings.Contains(d, "::") && m.P.Enums[d] == nil {
			return Value{K: ObjK, O: m.NewObject(d), T: d}
		}
		return Value{K: Undef, T: d}
	}
	switch {
	case isFloat(d):
		return Value{K: Float, T: d}
	case d == "bool":
		return Value{K: Bool, T: d}
	case isInt(d):
		return Value{K: Int, T: d}
	case strings.HasSuffix(d, "*"):
		return Value{K: Null, T: d}
	case m.P.Enums[d] != nil:
		return m.enumValue(d, 0)
	}
	return Value{K: ObjK, O: m.NewObject(d), T: d}
}

// implicit constructs a class without constructor arguments.
func (m *Machine) implicit(rec *Node, this *Object) {
	for _, c := range rec.Inner {
		if c.Kind == "CXXConstructorDecl" && len(c.params()) == 0 {
			if d := m.P.definition(c); d != nil {
				m.Call(d, this, nil, d)
				return
			}
			if !c.Implicit {
				if d := m.ctorDef(c); d != nil {
					m.Call(d, this, nil, d)
					return
				}
			}
		}
	}
	for _, b := range m.bases(rec) {
		m.implicit(b, this)
	}
	for _, f := range rec.Inner {
		if f.Kind == "FieldDecl" {
			m.defaultInit(f, this)
		}
	}
}

// ctorDef finds the definition of a constructor outside its class.
func (m *Machine) ctorDef(c *Node) *Node {
	for _, t := range m.P.tus {
		for _, n := range t.byID {
			if n.Kind == "CXXConstructorDecl" && n.Previous == c.ID && n.tu == c.tu && n.body() != nil {
				return n
			}
		}
	}
	return nil
}

func isString(t string) bool {
	t = plain(t)
	return t == "std::string" || strings.HasPrefix(t, "std::basic_string<char") || strings.HasPrefix(t, "std::__cxx11::basic_string<char") || t == "string" || strings.HasPrefix(t, "basic_string<char")
}

func isFloat(t string) bool { return t == "float" || t == "double" || t == "long double" }

var intBits = map[string]int{"char": 8, "signed char": 8, "unsigned char": -8, "short": 16, "unsigned short": -16, "int": 32, "unsigned int": -32, "unsigned": -32, "long": 64, "unsigned long": -64, "long long": 64, "unsigned long long": -64,
	"int32_t": 32, "uint32_t": -32, "int64_t": 64, "uint64_t": -64, "std::size_t": -64, "size_t": -64}

func isInt(t string) bool { return intBits[t] != 0 }

func isStream(t string) bool {
	return strings.Contains(t, "stream")
}

// Stream is a stream by name.
func (m *Machine) Stream(name string) *Object {
	if m.streams[name] == nil {
		m.streams[name] = &Object{Type: "stream " + name, Fields: map[string]*Cell{}}
	}
	return m.streams[name]
}

func (m *Machine) enumValue(q string, i int64) Value {
	e := m.P.Enums[q]
	if e == nil {
		return Value{K: Enum, I: i, T: q, S: fmt.Sprint(i)}
	}
	n, x := "", int64(0)
	for _, c := range e.Inner {
		if c.Kind != "EnumConstantDecl" {
			continue
		}
		if v, ok := enumInit(c); ok {
			x = v
		}
		if x == i {
			n = c.Name
			break
		}
		x++
	}
	if n == "" {
		n = fmt.Sprint(i)
	}
	return Value{K: Enum, I: i, T: q, S: n}
}

func enumInit(c *Node) (int64, bool) {
	for _, i := range c.Inner {
		if s, ok := i.Value.(string); ok && i.Kind == "ConstantExpr" {
			v, err := strconv.ParseInt(s, 10, 64)
			return v, err == nil
		}
	}
	return 0, false
}

// EnumByName is the value of an enumerator, by the enumeration's qualified name.
func (m *Machine) EnumByName(q, name string) (Value, bool) {
	e := m.P.Enums[q]
	if e == nil {
		return Value{}, false
	}
	x := int64(0)
	for _, c := range e.Inner {
		if c.Kind != "EnumConstantDecl" {
			continue
		}
		if v, ok := enumInit(c); ok {
			x = v
		}
		if c.Name == name {
			return Value{K: Enum, I: x, T: q, S: name}, true
		}
		x++
	}
	return Value{}, false
}

func (m *Machine) step(n *Node) {
	m.Steps++
	if m.Steps > m.Limit {
		m.fail(n, "does not come to an end")
	}
}

// truth decides a condition.
func (m *Machine) truth(v Value, n *Node) bool {
	v = m.rvalue(v)
	switch v.K {
	case Bool, Int, Enum:
		return v.I != 0
	case Float:
		return v.F != 0
	case Cmp:
		return !m.equal(*v.L, *v.R, n)
	case Null:
		return false
	case PtrK, Func:
		return true
	case Undef:
		m.fail(n, "a variable is used before it has a value")
	}
	m.fail(n, "a condition depends on %v", v)
	return false
}

// equal decides whether two values are equal; inputs are split into those that are and those that are not.
func (m *Machine) equal(a, b Value, n *Node) bool {
	a, b = m.rvalue(a), m.rvalue(b)
	if a.K == Text && len(a.Its) == 1 && a.Its[0].Sym != nil {
		a = m.rvalue(Value{K: SymK, Sym: a.Its[0].Sym, T: a.Its[0].Sym.Type})
	}
	if b.K == Text && len(b.Its) == 1 && b.Its[0].Sym != nil {
		b = m.rvalue(Value{K: SymK, Sym: b.Its[0].Sym, T: b.Its[0].Sym.Type})
	}
	if b.K == SymK {
		a, b = b, a
	}
	if a.K == SymK {
		if b.K == SymK {
			if a.Sym == b.Sym {
				return true
			}
			m.fail(n, "compares two inputs")
		}
		if b.K != Str && b.K != Int && b.K != Float && b.K != Bool {
			m.fail(n, "compares an input with %v", b)
		}
		// A value that the type of the input cannot have.
		if !fits(b, a.Sym.Type) {
			return false
		}
		for _, x := range a.Sym.Neq {
			if eq, ok := same(x, b); ok && eq {
				return false
			}
		}
		if m.Choose(2) == 0 {
			c := b
			c.Tag = nil
			a.Sym.Bound = &c
			return true
		}
		a.Sym.Neq = append(a.Sym.Neq, b)
		return false
	}
	if a.K == Undef || b.K == Undef {
		m.fail(n, "a variable is used before it has a value")
	}
	eq, ok := same(a, b)
	if !ok {
		m.fail(n, "cannot tell whether %v equals %v", a, b)
	}
	return eq
}

// fits reports whether a type has a value.
func fits(v Value, t string) bool {
	b := intBits[t]
	switch {
	case b > 0 && b < 64 && v.K == Int:
		return v.I >= -(1<<(b-1)) && v.I < 1<<(b-1)
	case b < 0 && b > -64 && v.K == Int:
		return v.I >= 0 && v.I < 1<<(-b)
	case b < 0 && v.K == Int:
		return v.I >= 0
	case b != 0 && v.K == Float:
		return v.F == float64(int64(v.F))
	case t == "float" && v.K == Float:
		return float64(float32(v.F)) == v.F
	}
	return true
}

// Snapshot describes everything that the rest of the run depends on.
func (m *Machine) Snapshot() string {
	var b strings.Builder
	seen := map[any]int{}
	var val func(v Value)
	cell := func(c *Cell) {
		if i, ok := seen[c]; ok {
			fmt.Fprintf(&b, "#%d", i)
			return
		}
		seen[c] = len(seen)
		val(c.V)
	}
	var obj func(o *Object)
	obj = func(o *Object) {
		if i, ok := seen[o]; ok {
			fmt.Fprintf(&b, "#%d", i)
			return
		}
		seen[o] = len(seen)
		if strings.HasPrefix(o.Type, "stream ") {
			b.WriteString(o.Type)
			return
		}
		var ks []string
		for k := range o.Fields {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Fprintf(&b, "%s{", o.Type)
		for _, k := range ks {
			b.WriteString(k + ":")
			cell(o.Fields[k])
			b.WriteString(";")
		}
		fmt.Fprintf(&b, "%s %v}", TextOf(o.Items), o.Tag)
	}
	val = func(v Value) {
		fmt.Fprintf(&b, "%d", v.K)
		switch v.K {
		case ObjK:
			obj(v.O)
		case Ref, PtrK:
			if v.C != nil {
				cell(v.C)
			}
			if v.O != nil {
				obj(v.O)
			}
		case Vec:
			for _, c := range v.Vs {
				cell(c)
				b.WriteString(",")
			}
		case Func:
			fmt.Fprintf(&b, "%p", v.N)
		case SymK:
			if v.Sym.Bound != nil {
				val(*v.Sym.Bound)
			} else {
				b.WriteString("?" + v.Sym.String())
			}
		case Cmp:
			val(*v.L)
			val(*v.R)
		default:
			b.WriteString(v.String())
		}
	}
	var gs []string
	for g := range m.globals {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		b.WriteString(g + "=")
		cell(m.globals[g])
		b.WriteString("\n")
	}
	for _, f := range m.frames {
		fmt.Fprintf(&b, "%p %p:", f.fn, f.at)
		if f.this != nil {
			obj(f.this)
		}
		var vs []*Node
		for v := range f.vars {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].ID < vs[j].ID })
		for _, v := range vs {
			b.WriteString(v.Name + "=")
			cell(f.vars[v])
			b.WriteString(";")
		}
		b.WriteString("\n")
	}
	fmt.Fprint(&b, m.Down)
	for _, c := range m.Callbacks {
		fmt.Fprintf(&b, "%s %s %v", c.Kind, c.Topic, c.Period)
	}
	return b.String()
}

// Objects lists the objects of a class (or a class derived from it) in the frames.
func (m *Machine) Objects(class string) (os []*Object) {
	seen := map[*Object]bool{}
	var is func(t string) bool
	is = func(t string) bool {
		if t == class {
			return true
		}
		if r := m.P.Records[t]; r != nil {
			for _, b := range m.bases(r) {
				if is(m.P.QName(b)) {
					return true
				}
			}
		}
		return false
	}
	for _, f := range m.frames {
		for _, c := range f.vars {
			if v := m.rvalue(c.V); v.K == ObjK && is(v.O.Type) && !seen[v.O] {
				seen[v.O] = true
				os = append(os, v.O)
			}
		}
	}
	return
}

// Method finds a method of a class or its bases by name.
func (m *Machine) Method(class, name string) *Node {
	r := m.P.Records[class]
	if r == nil {
		return nil
	}
	for _, c := range r.Inner {
		if c.Kind == "CXXMethodDecl" && c.Name == name {
			return c
		}
	}
	for _, b := range m.bases(r) {
		if f := m.Method(m.P.QName(b), name); f != nil {
			return f
		}
	}
	return nil
}

func (m *Machine) Rvalue(v Value) Value { return m.rvalue(v) }

func (m *Machine) Object(v Value, n *Node) *Object { return m.object(v, n) }

// Apply calls a method.
func (m *Machine) Apply(fn *Node, this *Object, args []Value, n *Node) Value {
	return m.apply(fn, this, args, n, nil)
}

// ParamType is the type of the only parameter of a function.
func (m *Machine) ParamType(fn *Node) string {
	if ps := fn.params(); len(ps) == 1 {
		return ps[0].Type.String() + " " + ps[0].Type.Qual
	}
	return ""
}

// TextOfEnum is how a value of an enumeration is printed.
func (m *Machine) TextOfEnum(v Value) (string, bool) {
	for _, f := range m.P.Funcs["operator<<"] {
		ps := f.params()
		if len(ps) == 2 && plain(ps[1].Type.String()) == v.T {
			t := &Object{Type: "stream", Fields: map[string]*Cell{}}
			m.Call(f, nil, []Value{{K: Ref, C: &Cell{V: Value{K: ObjK, O: t}}}, v}, f)
			return TextOf(t.Items), true
		}
	}
	return "", false
}

// Ender is the method of a class that takes just a status.
func (p *Program) Ender(class string) *Node {
	var f *Node
	for _, c := range p.Records[class].Inner {
		if c.Kind != "CXXMethodDecl" {
			continue
		}
		if ps := c.params(); len(ps) == 1 && plain(ps[0].Type.String()) == "rtcg::Status" && returnType(c) == "void" && p.definition(c) != nil {
			if f != nil {
				return nil
			}
			f = c
		}
	}
	return f
}

// Blank gives the fields of an object the values that they have without a constructor.
func (m *Machine) Blank(class string, o *Object) {
	r := m.P.Records[class]
	for _, b := range m.bases(r) {
		m.Blank(m.P.QName(b), o)
	}
	for _, f := range r.Inner {
		if f.Kind == "FieldDecl" {
			m.defaultInit(f, o)
		}
	}
}

// SetField sets the field of a name, whatever class it is of.
func (m *Machine) SetField(o *Object, name string, v Value) bool {
	n := 0
	for k, c := range o.Fields {
		if strings.HasSuffix(k, "::"+name) {
			c.V = v
			n++
		}
	}
	return n == 1
}

func (m *Machine) GetField(o *Object, name string) Value {
	for k, c := range o.Fields {
		if strings.HasSuffix(k, "::"+name) {
			return c.V
		}
	}
	return Value{}
}
