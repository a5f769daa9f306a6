package cxxrun

import (
	"fmt"
	"strings"
)

// Handle is what a publisher, subscriber or timer object stands for.
type Handle struct {
	Topic string
	Cb    *Callback
}

func (h *Handle) String() string {
	if h.Cb != nil {
		return h.Cb.Kind + h.Cb.Topic
	}
	return "topic " + h.Topic
}

func (m *Machine) callee(n *Node) Value {
	v := m.eval(n)
	if v.K == Ref {
		v = m.rvalue(v)
	}
	return v
}

func (m *Machine) args(ns []*Node) (vs []Value) {
	for _, a := range ns {
		vs = append(vs, m.eval(a))
	}
	return
}

func (m *Machine) call(n *Node) Value {
	f := m.callee(n.Inner[0])
	if f.K != Func {
		m.fail(n, "what is called is not known")
	}
	args := m.args(n.Inner[1:])
	return m.apply(f.N, nil, args, n, n.Inner[1:])
}

// apply calls a function or method by its declaration.
func (m *Machine) apply(fn *Node, this *Object, args []Value, n *Node, nodes []*Node) Value {
	q := fn.Name
	inTree := fn.tu != nil
	if inTree {
		q = m.P.QName(fn)
		if strings.HasPrefix(q, "ros::") {
			return m.ros(strings.TrimPrefix(q, "ros::"), this, args, n)
		}
		if m.Convs != nil {
			if v, ok := m.Convs(m, fn, args); ok {
				return v
			}
		}
		if m.P.definition(fn) != nil {
			return m.Call(fn, this, args, n)
		}
		m.fail(n, "%s has no definition here", q)
	}
	r := func(i int) Value { return m.rvalue(args[i]) }
	switch q {
	case "move", "forward", "ref", "cref", "as_const":
		if len(args) == 1 {
			return args[0]
		}
	case "strcmp":
		a, b := r(0), r(1)
		return Value{K: Cmp, L: &a, R: &b}
	case "to_string":
		v := r(0)
		if v.K == SymK {
			return Value{K: Text, Its: []Item{item(v)}}
		}
		return Value{K: Str, S: fmt.Sprint(v)}
	case "exit", "_Exit", "quick_exit":
		panic(&Stop{r(0)})
	case "getline":
		return m.read(args[0], args[1], "std::string", n)
	case "operator<<", "operator>>", "operator==", "operator!=", "operator+", "operator<":
		return m.op(strings.TrimPrefix(q, "operator"), args, n, nodes)
	}
	m.fail(n, "what %s does is not known", q)
	return Value{}
}

func (m *Machine) ros(q string, this *Object, args []Value, n *Node) Value {
	text := func(i int) string {
		v := m.rvalue(args[i])
		if v.K != Str {
			m.fail(n, "a topic that is not known")
		}
		return v.S
	}
	switch q {
	case "init":
		return Value{K: Void}
	case "ok":
		return boolean(!m.Down)
	case "spin", "spinOnce":
		if m.Spin == nil {
			m.fail(n, "waits for callbacks")
		}
		m.Spin(m, q == "spinOnce", n)
		return Value{K: Void}
	case "shutdown", "requestShutdown":
		m.Down = true
		return Value{K: Void}
	case "log":
		v := m.rvalue(args[1])
		var its []Item
		its = append(its, m.items(v)...)
		m.line(its, n)
		return Value{K: Void}
	case "NodeHandle::advertise":
		o := m.NewObject("ros::Publisher")
		o.Tag = &Handle{Topic: text(0)}
		return Value{K: ObjK, O: o, T: o.Type}
	case "NodeHandle::subscribe":
		c := &Callback{Kind: "topic", Topic: text(0), Node: n}
		f := m.rvalue(args[2])
		if f.K != Func || len(args) < 4 {
			m.fail(n, "a callback that is not known")
		}
		c.Fn, c.This = f.N, m.rvalue(args[3])
		m.Callbacks = append(m.Callbacks, c)
		o := m.NewObject("ros::Subscriber")
		o.Tag = &Handle{Topic: c.Topic, Cb: c}
		return Value{K: ObjK, O: o, T: o.Type}
	case "NodeHandle::createTimer":
		c := &Callback{Kind: "timer", Node: n}
		d := m.object(args[0], n)
		p, ok := d.Tag.(float64)
		if !ok {
			m.fail(n, "a duration that is not known")
		}
		c.Period = p
		f := m.rvalue(args[1])
		if f.K != Func || len(args) < 3 {
			m.fail(n, "a callback that is not known")
		}
		c.Fn, c.This = f.N, m.rvalue(args[2])
		if len(args) > 4 {
			if v := m.rvalue(args[4]); v.K == Bool && v.I == 0 {
				m.fail(n, "a timer that is not started")
			}
		}
		m.Callbacks = append(m.Callbacks, c)
		o := m.NewObject("ros::Timer")
		o.Tag = &Handle{Topic: fmt.Sprint(p), Cb: c}
		return Value{K: ObjK, O: o, T: o.Type}
	case "Publisher::publish":
		h, _ := this.Tag.(*Handle)
		p := Published{Msg: m.copy(m.rvalue(args[0])), Node: n}
		if h != nil {
			p.Topic = h.Topic
		}
		m.Published = append(m.Published, p)
		return Value{K: Void}
	case "Subscriber::shutdown", "Timer::stop", "Publisher::shutdown":
		this.Tag = nil
		return Value{K: Void}
	case "Timer::start":
		return Value{K: Void}
	case "Time::now":
		return Value{K: ObjK, O: m.NewObject("ros::Time")}
	}
	m.fail(n, "what ros::%s does is not known", q)
	return Value{}
}

// Live reports whether the handle of a callback still exists.
func (m *Machine) Live(c *Callback) bool {
	seen := map[*Object]bool{}
	var in func(v Value) bool
	in = func(v Value) bool {
		v = m.rvalue(v)
		switch v.K {
		case PtrK:
			if v.C != nil {
				return in(v.C.V)
			}
			fallthrough
		case ObjK:
			if v.O == nil || seen[v.O] {
				return false
			}
			seen[v.O] = true
			if h, ok := v.O.Tag.(*Handle); ok && h.Cb == c {
				return true
			}
			for _, f := range v.O.Fields {
				if in(f.V) {
					return true
				}
			}
		case Vec:
			for _, x := range v.Vs {
				if in(x.V) {
					return true
				}
			}
		}
		return false
	}
	for _, f := range m.frames {
		for _, v := range f.vars {
			if in(v.V) {
				return true
			}
		}
		if f.this != nil && in(Value{K: PtrK, O: f.this}) {
			return true
		}
	}
	for _, g := range m.globals {
		if in(g.V) {
			return true
		}
	}
	return false
}

func (m *Machine) memberCall(n *Node) Value {
	me := n.Inner[0]
	for me.Kind == "ParenExpr" || me.Kind == "ImplicitCastExpr" {
		me = me.Inner[0]
	}
	if me.Kind != "MemberExpr" {
		m.fail(n, "call of a member that is not known")
	}
	d := me.find(me.Member)
	base := m.eval(me.Inner[0])
	if d != nil {
		args := m.args(n.Inner[1:])
		return m.apply(d, m.object(base, n), args, n, n.Inner[1:])
	}
	return m.libMember(me.Name, base, n)
}

func (m *Machine) libMember(name string, base Value, n *Node) Value {
	v := m.rvalue(base)
	args := m.args(n.Inner[1:])
	r := func(i int) Value { return m.rvalue(args[i]) }
	for len(args) > 0 && r(len(args)-1).K == Other {
		args = args[:len(args)-1]
	}
	if v.K == ObjK && strings.HasPrefix(v.O.Type, "stream") {
		switch name {
		case "str":
			if len(args) == 0 {
				return Value{K: Text, Its: append([]Item{}, v.O.Items...), T: "std::string"}
			}
			v.O.Items = m.items(r(0))
			return Value{K: Void}
		case "flush", "precision", "setf", "unsetf", "clear", "ignore", "tie", "sync":
			return base
		case "good", "operator bool":
			return boolean(true)
		case "eof", "fail", "bad":
			return boolean(false)
		case "put", "write":
			m.emit(v.O, m.items(r(0)), n)
			return base
		case "operator<<":
			return m.op("<<", append([]Value{base}, args...), n, nil)
		}
		m.fail(n, "what %s of a stream does is not known", name)
	}
	if name == "get" || name == "operator->" {
		return v
	}
	if name == "operator bool" {
		return boolean(m.truth(v, n))
	}
	switch v.K {
	case Str, SymK, Text:
		switch name {
		case "c_str", "data":
			return v
		case "compare":
			if len(args) == 1 {
				o := r(0)
				return Value{K: Cmp, L: &v, R: &o}
			}
		case "empty":
			return boolean(m.equal(v, Value{K: Str}, n))
		case "append", "push_back":
			if len(args) == 1 && base.K == Ref {
				base.C.V = m.concat(v, r(0), n)
				return base
			}
		case "assign":
			if len(args) == 1 && base.K == Ref {
				base.C.V = r(0)
				return base
			}
		case "clear":
			if base.K == Ref {
				base.C.V = Value{K: Str, T: "std::string"}
				return Value{K: Void}
			}
		case "size", "length":
			if v.K == Str {
				return Value{K: Int, I: int64(len(v.S)), T: "unsigned long"}
			}
		case "find":
			if v.K == Str && len(args) > 0 && r(0).K == Str {
				return Value{K: Int, I: int64(strings.Index(v.S, r(0).S)), T: "unsigned long"}
			}
		case "substr":
			if v.K == Str && len(args) == 2 && r(0).K == Int && r(1).K == Int && r(0).I >= 0 && r(0).I <= int64(len(v.S)) {
				e := min(int64(len(v.S)), r(0).I+r(1).I)
				return Value{K: Str, S: v.S[r(0).I:e], T: "std::string"}
			}
		}
	case Vec:
		switch name {
		case "size":
			return Value{K: Int, I: int64(len(v.Vs)), T: "unsigned long"}
		case "empty":
			return boolean(len(v.Vs) == 0)
		case "push_back", "emplace_back":
			if base.K == Ref && len(args) == 1 {
				for base.C.V.K == Ref {
					base = base.C.V
				}
				base.C.V.Vs = append(base.C.V.Vs, &Cell{V: m.copy(r(0))})
				return Value{K: Void}
			}
		case "at":
			return m.index_(v, r(0), n)
		case "front":
			return m.index_(v, Value{K: Int}, n)
		case "back":
			return m.index_(v, Value{K: Int, I: int64(len(v.Vs)) - 1}, n)
		}
	}
	m.fail(n, "what %s of %v does is not known", name, v)
	return Value{}
}

func (m *Machine) operator(n *Node) Value {
	f := m.callee(n.Inner[0])
	if f.K != Func {
		m.fail(n, "operator that is not known")
	}
	nodes := n.Inner[1:]
	op := strings.TrimPrefix(f.N.Name, "operator")
	args := m.args(nodes)
	if f.N.tu != nil && m.P.definition(f.N) != nil && !(op == "=" && f.N.Implicit) {
		if op == "<<" && f.N.Kind == "FunctionDecl" && m.isStreamValue(args[0]) {
			return m.op("<<", args, n, nodes, f.N)
		}
		if f.N.Kind == "CXXMethodDecl" {
			return m.Call(f.N, m.object(args[0], n), args[1:], n)
		}
		return m.Call(f.N, nil, args, n)
	}
	return m.op(op, args, n, nodes)
}

func (m *Machine) isStreamValue(v Value) bool {
	v = m.rvalue(v)
	return v.K == ObjK && strings.HasPrefix(v.O.Type, "stream")
}

func (m *Machine) op(op string, args []Value, n *Node, nodes []*Node, user ...*Node) Value {
	r := func(i int) Value { return m.rvalue(args[i]) }
	switch op {
	case "<<":
		if !m.isStreamValue(args[0]) {
			break
		}
		s := r(0).O
		v := r(1)
		if len(user) > 0 {
			t := &Object{Type: "stream", Fields: map[string]*Cell{}}
			m.Call(user[0], nil, []Value{{K: Ref, C: &Cell{V: Value{K: ObjK, O: t}}}, args[1]}, n)
			its := t.Items
			if v.K == Enum {
				its = []Item{{Text: TextOf(its), Val: v}}
			}
			m.emit(s, its, n)
			return args[0]
		}
		if v.K == Func {
			switch v.S {
			case "endl":
				m.emit(s, []Item{{Text: "\n"}}, n)
			case "flush", "boolalpha", "noboolalpha", "dec", "ends":
			default:
				m.fail(n, "streams the function %s", v.S)
			}
			return args[0]
		}
		m.emit(s, m.items(v), n)
		return args[0]
	case ">>":
		if m.isStreamValue(args[0]) {
			return m.read(args[0], args[1], plain(nodes[len(nodes)-1].Type.String()), n)
		}
	case "==", "!=":
		return boolean(m.isEqual(r(0), r(1), n) == (op == "=="))
	case "<", ">", "<=", ">=":
		a, b := r(0), r(1)
		if a.K == Str && b.K == Str {
			c := strings.Compare(a.S, b.S)
			return boolean(op == "<" && c < 0 || op == ">" && c > 0 || op == "<=" && c <= 0 || op == ">=" && c >= 0)
		}
	case "=":
		if args[0].K == Ref {
			args[0].C.V = m.copy(r(1))
			return args[0]
		}
	case "+":
		return m.concat(r(0), r(1), n)
	case "+=":
		if args[0].K == Ref {
			args[0].C.V = m.concat(r(0), r(1), n)
			return args[0]
		}
	case "->":
		return r(0)
	case "*":
		if len(args) == 1 {
			return Value{K: Ref, C: &Cell{V: Value{K: ObjK, O: m.object(r(0), n)}}}
		}
	case "[]":
		return m.index_(r(0), r(1), n)
	case "!":
		if m.isStreamValue(args[0]) {
			return boolean(false)
		}
		return boolean(!m.truth(r(0), n))
	}
	m.fail(n, "operator %s is not understood", op)
	return Value{}
}

func (m *Machine) concat(a, b Value, n *Node) Value {
	if a.K == Str && b.K == Str && a.Tag == nil && b.Tag == nil {
		return Value{K: Str, S: a.S + b.S, T: "std::string"}
	}
	ok := func(v Value) bool { return v.K == Str || v.K == SymK || v.K == Text }
	if b.K == Int && b.T == "char" && a.K == Str {
		return Value{K: Str, S: a.S + string(rune(b.I)), T: "std::string"}
	}
	if !ok(a) || !ok(b) {
		m.fail(n, "concatenates %v and %v", a, b)
	}
	return Value{K: Text, Its: append(m.items(a), m.items(b)...), T: "std::string"}
}

func (m *Machine) read(s, to Value, typ string, n *Node) Value {
	if st := m.rvalue(s); st.K != ObjK || st.O != m.Stream("cin") {
		m.fail(n, "reads from a stream that is not known")
	}
	if to.K != Ref {
		m.fail(n, "reads into %v", to)
	}
	if m.Read == nil {
		m.fail(n, "reads an input")
	}
	to.C.V = Value{K: Undef, T: typ}
	v := m.Read(m, typ, n)
	to.C.V = v
	return s
}

func item(v Value) Item {
	it := Item{Conv: v.Tag, Val: v}
	switch {
	case v.K == SymK && v.Sym.Bound == nil:
		it.Sym = v.Sym
	case v.K == Str:
		it.Text = v.S
	case v.K == SymK:
		return item(*v.Sym.Bound)
	case v.K == Int && (v.T == "char"):
		it.Text = string(rune(v.I))
	case v.K == Bool:
		it.Text = fmt.Sprint(v.I)
	default:
		it.Text = v.String()
	}
	if v.K == ObjK {
		if c, ok := v.O.Tag.(*Conv); ok {
			it.Conv = c
		}
	}
	return it
}

func (m *Machine) items(v Value) []Item {
	v = m.rvalue(v)
	if v.K == Text {
		return append([]Item{}, v.Its...)
	}
	return []Item{item(v)}
}

// emit adds items to a stream; whole lines of the console are kept.
func (m *Machine) emit(s *Object, its []Item, n *Node) {
	s.Items = append(s.Items, its...)
	switch s.Type {
	case "stream cout", "stream cerr", "stream clog":
		for {
			cut := -1
			for i, it := range s.Items {
				if it.Sym == nil && strings.Contains(it.Text, "\n") {
					cut = i
					break
				}
			}
			if cut < 0 {
				return
			}
			it := s.Items[cut]
			i := strings.Index(it.Text, "\n")
			first, rest := it, it
			first.Text, rest.Text = it.Text[:i], it.Text[i+1:]
			rest.Conv = nil
			line := append(append([]Item{}, s.Items[:cut]...), first)
			s.Items = append([]Item{rest}, s.Items[cut+1:]...)
			m.Lines = append(m.Lines, Line{line, n})
		}
	}
}

// line keeps a message of the log, which may have several lines.
func (m *Machine) line(its []Item, n *Node) {
	o := &Object{Type: "stream cout", Items: nil}
	m.emit(o, append(its, Item{Text: "\n"}), n)
}

// construct evaluates a constructor, into an object if there is one.
func (m *Machine) construct(n *Node, this *Object) Value {
	if n.Kind != "CXXConstructExpr" && n.Kind != "CXXTemporaryObjectExpr" {
		return m.eval(n)
	}
	d := plain(n.Type.String())
	args := m.args(n.Inner)
	for len(args) > 0 && m.rvalue(args[len(args)-1]).K == Other && !strings.HasPrefix(d, "ros::") {
		args = args[:len(args)-1]
	}
	r := func(i int) Value { return m.rvalue(args[i]) }
	if strings.HasPrefix(d, "ros::") {
		if len(args) == 1 {
			if v := r(0); v.K == ObjK {
				return m.copy(v)
			}
		}
		o := m.NewObject(d)
		if d == "ros::Duration" {
			o.Tag = m.seconds(args, n)
		}
		return Value{K: ObjK, O: o, T: d}
	}
	if rec := m.record(d); rec != nil {
		q := m.P.QName(rec)
		if len(args) == 1 {
			if v := r(0); v.K == ObjK && v.O.Type == q {
				if this == nil {
					return m.copy(v)
				}
				for k, c := range m.copy(v).O.Fields {
					this.Fields[k] = c
				}
				return Value{K: ObjK, O: this, T: d}
			}
		}
		o := this
		if o == nil {
			o = m.NewObject(q)
		}
		ct := n.CtorType
		var ctor *Node
		for _, c := range rec.Inner {
			if c.Kind == "CXXConstructorDecl" && ct != nil && c.Type.Qual == ct.Qual {
				ctor = c
			}
		}
		if ctor != nil {
			def := m.P.definition(ctor)
			if def == nil {
				def = m.ctorDef(ctor)
			}
			if def != nil {
				m.Call(def, o, args, n)
				return Value{K: ObjK, O: o, T: d}
			}
		}
		if len(args) == 0 && (ctor == nil || ctor.Implicit || len(ctor.Inner) == 0) {
			for _, b := range m.bases(rec) {
				m.implicit(b, o)
			}
			for _, f := range rec.Inner {
				if f.Kind == "FieldDecl" {
					m.defaultInit(f, o)
				}
			}
			return Value{K: ObjK, O: o, T: d}
		}
		m.fail(n, "constructor of %s", d)
	}
	switch {
	case isString(d):
		switch len(args) {
		case 0:
			return Value{K: Str, T: d}
		case 1:
			v := r(0)
			switch v.K {
			case Str, SymK, Text:
				return v
			}
		}
	case strings.Contains(d, "stringstream"):
		o := m.NewObject("stream")
		if len(args) > 0 && r(0).K == Str {
			o.Items = m.items(r(0))
		}
		return Value{K: ObjK, O: o, T: d}
	case strings.Contains(d, "shared_ptr"):
		if len(args) == 0 {
			return Value{K: Null, T: d}
		}
		return r(0)
	case strings.HasPrefix(d, "std::vector"):
		if len(args) == 0 {
			return Value{K: Vec, T: d}
		}
		if v := r(0); len(args) == 1 && v.K == Vec {
			v = m.copy(v)
			v.T = d
			return v
		}
	default:
		if len(args) == 0 {
			return Value{K: ObjK, O: m.NewObject(d), T: d}
		}
		if len(args) == 1 {
			return m.copy(r(0))
		}
	}
	m.fail(n, "constructor of %s", d)
	return Value{}
}

func (m *Machine) seconds(args []Value, n *Node) any {
	num := func(v Value) float64 {
		v = m.rvalue(v)
		switch v.K {
		case Int, Bool:
			return float64(v.I)
		case Float:
			return v.F
		}
		m.fail(n, "a duration that is not known")
		return 0
	}
	switch len(args) {
	case 1:
		return num(args[0])
	case 2:
		return num(args[0]) + num(args[1])/1e9
	}
	return nil
}
