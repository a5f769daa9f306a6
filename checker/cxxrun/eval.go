package cxxrun

import (
	"fmt"
	"strconv"
	"strings"
)

func (m *Machine) frame() *frame { return m.frames[len(m.frames)-1] }

func (m *Machine) stmt(n *Node) ctl {
	if n == nil || n.Kind == "" {
		return next
	}
	m.step(n)
	old := m.At
	m.At = n
	defer func() {
		if old != nil {
			m.At = old
		}
	}()
	switch n.Kind {
	case "CompoundStmt":
		c := next
		for _, s := range n.Inner {
			if c = m.stmt(s); c != next {
				break
			}
		}
		for _, s := range n.Inner {
			if s.Kind == "DeclStmt" {
				for _, d := range s.Inner {
					delete(m.frame().vars, d)
				}
			}
		}
		return c
	case "NullStmt":
		return next
	case "AttributedStmt":
		for _, s := range n.Inner {
			if !isAttr(s.Kind) {
				return m.stmt(s)
			}
		}
		return next
	case "DeclStmt":
		for _, d := range n.Inner {
			m.local(d)
		}
		return next
	case "IfStmt":
		in := n.Inner
		if n.HasInit {
			m.stmt(in[0])
			in = in[1:]
		}
		if n.HasVar {
			m.stmt(in[0])
			in = in[1:]
		}
		if m.truth(m.eval(in[0]), in[0]) {
			return m.stmt(in[1])
		}
		if len(in) > 2 {
			return m.stmt(in[2])
		}
		return next
	case "WhileStmt":
		in := n.Inner
		for {
			m.step(n)
			i := in
			if n.HasVar {
				m.stmt(i[0])
				i = i[1:]
			}
			if !m.truth(m.eval(i[0]), i[0]) {
				return next
			}
			switch m.stmt(i[1]) {
			case brk:
				return next
			case ret:
				return ret
			}
		}
	case "DoStmt":
		for {
			m.step(n)
			switch m.stmt(n.Inner[0]) {
			case brk:
				return next
			case ret:
				return ret
			}
			if !m.truth(m.eval(n.Inner[1]), n.Inner[1]) {
				return next
			}
		}
	case "ForStmt":
		m.stmt(n.Inner[0])
		for {
			m.step(n)
			m.stmt(n.Inner[1])
			if n.Inner[2].Kind != "" && !m.truth(m.eval(n.Inner[2]), n.Inner[2]) {
				return next
			}
			switch m.stmt(n.Inner[4]) {
			case brk:
				return next
			case ret:
				return ret
			}
			if n.Inner[3].Kind != "" {
				m.eval(n.Inner[3])
			}
		}
	case "SwitchStmt":
		in := n.Inner
		if n.HasInit {
			m.stmt(in[0])
			in = in[1:]
		}
		if n.HasVar {
			m.stmt(in[0])
			in = in[1:]
		}
		return m.doSwitch(in[0], in[1])
	case "CaseStmt", "DefaultStmt":
		return m.stmt(n.Inner[len(n.Inner)-1])
	case "BreakStmt":
		return brk
	case "ContinueStmt":
		return cont
	case "ReturnStmt":
		f := m.frame()
		f.ret = Value{K: Void}
		if len(n.Inner) > 0 {
			v := m.eval(n.Inner[0])
			if !isRef(returnType(f.fn)) {
				v = m.rvalue(v)
				if v.K == ObjK && n.Inner[0].ValueCategory == "lvalue" {
					v = m.copy(v)
				}
			}
			f.ret = v
		}
		return ret
	case "CXXForRangeStmt":
		return m.forRange(n)
	}
	m.eval(n)
	return next
}

// returnType is the result type of a function.
func returnType(fn *Node) string {
	t := fn.Type.Qual
	if i := strings.Index(t, "("); i >= 0 {
		return strings.TrimSpace(t[:i])
	}
	return t
}

// forRange: range-init, range, begin, end, cond, inc, variable, body.
func (m *Machine) forRange(n *Node) ctl {
	in := n.Inner
	if in[0] != nil && in[0].Kind != "" {
		m.stmt(in[0])
	}
	var rng Value
	for _, d := range in[1].Inner {
		for _, i := range d.Inner {
			rng = m.rvalue(m.eval(i))
		}
	}
	if rng.K != Vec {
		m.fail(n, "cannot tell what %v holds", rng)
	}
	for _, c := range rng.Vs {
		d := in[len(in)-2].Inner[0]
		m.frame().vars[d] = m.bind(d, Value{K: Ref, C: c})
		switch m.stmt(in[len(in)-1]) {
		case brk:
			return next
		case ret:
			return ret
		}
	}
	return next
}

// doSwitch runs the statements of a switch from the matching label on.
func (m *Machine) doSwitch(cond, body *Node) ctl {
	v := m.rvalue(m.eval(cond))
	if v.K == Undef {
		m.fail(cond, "a variable is used before it has a value")
	}
	match := -1
	var labels func(s *Node) bool
	labels = func(s *Node) bool {
		switch s.Kind {
		case "CaseStmt":
			x := m.rvalue(m.eval(s.Inner[0]))
			if len(s.Inner) == 3 {
				m.fail(s, "range of cases")
			}
			return m.equal(v, x, s) || labels(s.Inner[len(s.Inner)-1])
		case "DefaultStmt":
			return labels(s.Inner[len(s.Inner)-1])
		}
		return false
	}
	stmts := []*Node{body}
	if body.Kind == "CompoundStmt" {
		stmts = body.Inner
	}
	for i, s := range stmts {
		if labels(s) {
			match = i
			break
		}
	}
	if match < 0 {
		var isDefault func(s *Node) bool
		isDefault = func(s *Node) bool {
			return s.Kind == "DefaultStmt" || s.Kind == "CaseStmt" && isDefault(s.Inner[len(s.Inner)-1])
		}
		for i, s := range stmts {
			if isDefault(s) {
				match = i
				break
			}
		}
	}
	if match < 0 {
		return next
	}
	for _, s := range stmts[match:] {
		for s.Kind == "CaseStmt" || s.Kind == "DefaultStmt" {
			s = s.Inner[len(s.Inner)-1]
		}
		switch c := m.stmt(s); c {
		case brk:
			return next
		case ret, cont:
			return c
		}
	}
	return next
}

func (m *Machine) local(d *Node) {
	switch d.Kind {
	case "VarDecl":
		if d.Storage == "static" || d.Storage == "extern" {
			return
		}
		m.frame().vars[d] = m.initVar(d)
	case "TypedefDecl", "TypeAliasDecl", "UsingDecl", "UsingDirectiveDecl", "StaticAssertDecl", "EnumDecl", "CXXRecordDecl", "EmptyDecl":
	default:
		m.fail(d, "declaration %s", d.Kind)
	}
}

func (m *Machine) initVar(d *Node) *Cell {
	for _, i := range d.Inner {
		if isAttr(i.Kind) {
			continue
		}
		return m.bind(d, m.eval(i))
	}
	return &Cell{V: m.zero(d.Type, false), Name: d.Name}
}

func (m *Machine) variable(d, n *Node) *Cell {
	if len(m.frames) > 0 {
		if c := m.frame().vars[d]; c != nil {
			return c
		}
	}
	q := m.P.QName(d)
	if c := m.globals[q]; c != nil {
		return c
	}
	if d.Kind == "ParmVarDecl" {
		m.fail(n, "%s has no value here", d.Name)
	}
	def := d
	if d.Init == "" && m.P.Globals[q] != nil {
		def = m.P.Globals[q]
	}
	m.frames = append(m.frames, &frame{fn: def, vars: map[*Node]*Cell{}})
	var c *Cell
	if hasInit(def) {
		c = m.initVar(def)
	} else {
		c = &Cell{V: m.zero(def.Type, true), Name: def.Name}
	}
	m.frames = m.frames[:len(m.frames)-1]
	m.globals[q] = c
	return c
}

func hasInit(d *Node) bool {
	for _, i := range d.Inner {
		if !isAttr(i.Kind) {
			return true
		}
	}
	return false
}

func (m *Machine) load(n *Node) Value { return m.rvalue(m.eval(n)) }

// object is the object that an lvalue, a pointer or a smart pointer leads to.
func (m *Machine) object(v Value, n *Node) *Object {
	v = m.rvalue(v)
	switch v.K {
	case ObjK:
		return v.O
	case PtrK:
		if v.O != nil {
			return v.O
		}
		if v.C != nil {
			return m.object(v.C.V, n)
		}
	case Null:
		m.fail(n, "follows a null pointer")
	case Undef:
		m.fail(n, "a variable is used before it has a value")
	}
	m.fail(n, "cannot tell which object %v is", v)
	return nil
}

func unquote(s string) (string, bool) {
	for _, p := range []string{"u8", "L", "u", "U"} {
		if strings.HasPrefix(s, p+"\"") {
			s = s[len(p):]
		}
	}
	if len(s) < 2 || s[0] != '"' || s[len(s)-1] != '"' {
		return s, false
	}
	s = s[1 : len(s)-1]
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] != '\\' || i+1 == len(s) {
			b.WriteByte(s[i])
			continue
		}
		i++
		switch c := s[i]; c {
		case 'n':
			b.WriteByte('\n')
		case 't':
			b.WriteByte('\t')
		case 'r':
			b.WriteByte('\r')
		case 'a':
			b.WriteByte(7)
		case 'b':
			b.WriteByte(8)
		case 'f':
			b.WriteByte(12)
		case 'v':
			b.WriteByte(11)
		case 'x':
			j := i + 1
			for j < len(s) && strings.IndexByte("0123456789abcdefABCDEF", s[j]) >= 0 {
				j++
			}
			x, _ := strconv.ParseUint(s[i+1:j], 16, 32)
			b.WriteByte(byte(x))
			i = j - 1
		case '0', '1', '2', '3', '4', '5', '6', '7':
			j := i
			for j < len(s) && j < i+3 && s[j] >= '0' && s[j] <= '7' {
				j++
			}
			x, _ := strconv.ParseUint(s[i:j], 8, 32)
			b.WriteByte(byte(x))
			i = j - 1
		default:
			b.WriteByte(c)
		}
	}
	return b.String(), true
}

func (m *Machine) eval(n *Node) Value {
	m.step(n)
	switch n.Kind {
	case "ParenExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr":
		return m.eval(n.Inner[len(n.Inner)-1])
	case "MaterializeTemporaryExpr":
		v := m.eval(n.Inner[0])
		if v.K == Ref {
			return v
		}
		return Value{K: Ref, C: &Cell{V: v}, Tag: v.Tag}
	case "ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "CXXConstCastExpr":
		return m.cast(n)
	case "IntegerLiteral":
		i, err := strconv.ParseInt(fmt.Sprint(n.Value), 10, 64)
		if err != nil {
			m.fail(n, "number %v", n.Value)
		}
		return Value{K: Int, I: i, T: n.Type.String()}
	case "CharacterLiteral":
		if f, ok := n.Value.(float64); ok {
			return Value{K: Int, I: int64(f), T: "char"}
		}
	case "FloatingLiteral":
		f, err := strconv.ParseFloat(fmt.Sprint(n.Value), 64)
		if err != nil {
			m.fail(n, "number %v", n.Value)
		}
		return Value{K: Float, F: f, T: n.Type.String()}
	case "CXXBoolLiteralExpr":
		return boolean(n.Value == true)
	case "StringLiteral":
		s, ok := unquote(fmt.Sprint(n.Value))
		if !ok {
			m.fail(n, "text %v", n.Value)
		}
		return Value{K: Str, S: s, T: "const char *"}
	case "CXXNullPtrLiteralExpr", "GNUNullExpr":
		return Value{K: Null}
	case "DeclRefExpr":
		return m.declRef(n)
	case "CXXThisExpr":
		for i := len(m.frames) - 1; i >= 0; i-- {
			if t := m.frames[i].this; t != nil {
				return Value{K: PtrK, O: t}
			}
		}
		m.fail(n, "this")
	case "MemberExpr":
		return m.member(n)
	case "UnaryOperator":
		return m.unary(n)
	case "BinaryOperator":
		return m.binary(n)
	case "CompoundAssignOperator":
		l := m.eval(n.Inner[0])
		if l.K != Ref {
			m.fail(n, "assigns to %v", l)
		}
		l.C.V = m.arith(strings.TrimSuffix(n.Opcode, "="), m.rvalue(l), m.load(n.Inner[1]), n)
		return l
	case "ConditionalOperator":
		if m.truth(m.eval(n.Inner[0]), n.Inner[0]) {
			return m.eval(n.Inner[1])
		}
		return m.eval(n.Inner[2])
	case "CallExpr":
		return m.call(n)
	case "CXXMemberCallExpr":
		return m.memberCall(n)
	case "CXXOperatorCallExpr":
		return m.operator(n)
	case "CXXConstructExpr", "CXXTemporaryObjectExpr":
		return m.construct(n, nil)
	case "CXXDefaultInitExpr", "CXXDefaultArgExpr":
		if len(n.Inner) > 0 {
			return m.eval(n.Inner[0])
		}
		return Value{K: Other, T: "default argument"}
	case "CXXScalarValueInitExpr", "ImplicitValueInitExpr":
		return m.zero(n.Type, true)
	case "InitListExpr":
		return m.initList(n)
	case "ArraySubscriptExpr":
		return m.index_(m.load(n.Inner[0]), m.load(n.Inner[1]), n)
	case "CXXStdInitializerListExpr":
		return m.eval(n.Inner[0])
	}
	m.fail(n, "%s is not understood", n.Kind)
	return Value{}
}

func boolean(b bool) Value {
	if b {
		return Value{K: Bool, I: 1, T: "bool"}
	}
	return Value{K: Bool, T: "bool"}
}

func (m *Machine) index_(a, i Value, n *Node) Value {
	if a.K == PtrK && a.C != nil {
		a = m.rvalue(a.C.V)
	}
	if a.K == Vec && (i.K == Int || i.K == Bool) {
		if i.I < 0 || i.I >= int64(len(a.Vs)) {
			m.fail(n, "index %d of %d elements", i.I, len(a.Vs))
		}
		return Value{K: Ref, C: a.Vs[i.I]}
	}
	m.fail(n, "cannot tell which element of %v this is", a)
	return Value{}
}

func (m *Machine) initList(n *Node) Value {
	d := plain(n.Type.String())
	if strings.HasSuffix(d, "]") {
		v := Value{K: Vec, T: d}
		for _, i := range n.Inner {
			v.Vs = append(v.Vs, &Cell{V: m.copy(m.load(i))})
		}
		if len(n.Filler) > 0 {
			m.fail(n, "array filler")
		}
		return v
	}
	if r := m.record(d); r != nil {
		o := m.NewObject(m.P.QName(r))
		k := len(m.bases(r))
		if k > 0 {
			m.fail(n, "initialiser of a derived class")
		}
		for _, f := range r.Inner {
			if f.Kind != "FieldDecl" {
				continue
			}
			if k < len(n.Inner) {
				m.field(o, m.fieldKey(f)).V = m.copy(m.load(n.Inner[k]))
			} else {
				m.defaultInit(f, o)
			}
			k++
		}
		return Value{K: ObjK, O: o, T: d}
	}
	if len(n.Inner) == 1 {
		return m.eval(n.Inner[0])
	}
	if len(n.Inner) == 0 {
		return m.zero(n.Type, true)
	}
	m.fail(n, "initialiser of %s", d)
	return Value{}
}

func (m *Machine) cast(n *Node) Value {
	v := m.eval(n.Inner[len(n.Inner)-1])
	d := plain(n.Type.String())
	switch n.CastKind {
	case "LValueToRValue":
		v = m.rvalue(v)
		if v.K == Undef {
			m.fail(n, "a variable is used before it has a value")
		}
		return v
	case "NoOp", "FunctionToPointerDecay", "ArrayToPointerDecay", "UncheckedDerivedToBase", "DerivedToBase", "ConstructorConversion", "UserDefinedConversion", "BuiltinFnToFnPtr", "BitCast", "ToVoid":
		return v
	case "IntegralCast":
		v = m.rvalue(v)
		return m.toInt(v, d, n)
	case "IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean", "MemberPointerToBoolean":
		return boolean(m.truth(v, n))
	case "IntegralToFloating", "FloatingCast":
		v = m.rvalue(v)
		switch v.K {
		case Int, Bool:
			v = Value{K: Float, F: float64(v.I), T: d}
		case Float:
			v.T = d
		case SymK:
			if !(isFloat(d) && (d != "float" || v.Sym.Type == "float")) {
				m.fail(n, "an input is converted to %s", d)
			}
			if b := intBits[v.Sym.Type]; b > 53 || b < -53 {
				m.fail(n, "an input is converted to %s", d)
			}
			return v
		default:
			m.fail(n, "%v is converted to %s", v, d)
		}
		if d == "float" {
			v.F = float64(float32(v.F))
		}
		return v
	case "FloatingToIntegral":
		v = m.rvalue(v)
		if v.K == Float {
			return m.toInt(Value{K: Int, I: int64(v.F)}, d, n)
		}
	case "NullToPointer":
		return Value{K: Null, T: d}
	}
	m.fail(n, "%v is converted to %s (%s)", v, d, n.CastKind)
	return Value{}
}

func (m *Machine) toInt(v Value, d string, n *Node) Value {
	b := intBits[d]
	switch v.K {
	case SymK:
		if v.Sym.Type == d {
			return v
		}
		x := intBits[v.Sym.Type]
		if x != 0 && b != 0 && (x > 0 && b > 0 && b >= x || x < 0 && b < 0 && b <= x || x < 0 && b > -x) {
			return v
		}
		m.fail(n, "an input is converted to %s", d)
	case Enum, Int, Bool:
		if m.P.Enums[d] != nil {
			return m.enumValue(d, v.I)
		}
		if d == "bool" {
			return boolean(v.I != 0)
		}
		i := v.I
		switch b {
		case 8:
			i = int64(int8(i))
		case -8:
			i = int64(uint8(i))
		case 16:
			i = int64(int16(i))
		case -16:
			i = int64(uint16(i))
		case 32:
			i = int64(int32(i))
		case -32:
			i = int64(uint32(i))
		case 64, -64:
		default:
			m.fail(n, "%v is converted to %s", v, d)
		}
		return Value{K: Int, I: i, T: d}
	case Undef:
		m.fail(n, "a variable is used before it has a value")
	}
	m.fail(n, "%v is converted to %s", v, d)
	return v
}

func (m *Machine) declRef(n *Node) Value {
	r := n.Ref
	if r == nil {
		m.fail(n, "reference to nothing")
	}
	d := n.find(r.ID)
	if d == nil || d == r {
		d = r
	}
	switch r.Kind {
	case "EnumConstantDecl":
		q := plain(r.Type.String())
		if d != r {
			q = m.P.QName(enumOf(d))
		}
		if v, ok := m.EnumByName(q, r.Name); ok {
			return v
		}
		return Value{K: Other, T: q, S: r.Name}
	case "VarDecl", "ParmVarDecl":
		if d == r {
			switch r.Name {
			case "cout", "cerr", "clog", "cin":
				return Value{K: Ref, C: &Cell{V: Value{K: ObjK, O: m.Stream(r.Name), T: "stream"}}}
			}
			m.fail(n, "what %s holds is not known", r.Name)
		}
		c := m.variable(d, n)
		if c.V.K == Ref {
			return c.V
		}
		return Value{K: Ref, C: c}
	case "FunctionDecl", "CXXMethodDecl":
		return Value{K: Func, N: d, S: r.Name}
	}
	m.fail(n, "reference to %s %s", r.Kind, r.Name)
	return Value{}
}

func enumOf(c *Node) *Node {
	for u := c.up; u != nil; u = u.up {
		if u.Kind == "EnumDecl" {
			return u
		}
	}
	return c
}

func (m *Machine) member(n *Node) Value {
	d := n.find(n.Member)
	if d != nil && isFunc(d.Kind) {
		return Value{K: Func, N: d, S: d.Name}
	}
	o := m.object(m.eval(n.Inner[0]), n)
	key := n.Name
	if d != nil && d.Kind == "FieldDecl" {
		key = m.fieldKey(d)
	} else if d != nil && d.Kind == "VarDecl" {
		return Value{K: Ref, C: m.variable(d, n)}
	}
	c := m.field(o, key)
	if c.V.K == Undef && d == nil {
		c.V = m.zero(n.Type, true)
	}
	if c.V.K == Ref {
		return c.V
	}
	return Value{K: Ref, C: c}
}

func (m *Machine) unary(n *Node) Value {
	e := n.Inner[0]
	switch n.Opcode {
	case "!":
		return boolean(!m.truth(m.eval(e), e))
	case "&":
		v := m.eval(e)
		switch v.K {
		case Ref:
			if o := v.C.V; o.K == ObjK {
				return Value{K: PtrK, O: o.O}
			}
			return Value{K: PtrK, C: v.C}
		case Func:
			return v
		}
	case "*":
		v := m.load(e)
		if v.K == PtrK && v.C != nil {
			return Value{K: Ref, C: v.C}
		}
		if v.K == Func {
			return v
		}
		return Value{K: Ref, C: &Cell{V: Value{K: ObjK, O: m.object(v, n)}}}
	case "-", "+":
		v := m.load(e)
		if v.K == Int || v.K == Bool || v.K == Float {
			if n.Opcode == "-" {
				v.I, v.F = -v.I, -v.F
			}
			if v.K == Bool {
				v.K, v.T = Int, "int"
			}
			return v
		}
	case "++", "--":
		v := m.eval(e)
		if v.K == Ref && v.C.V.K == Int {
			old := v.C.V
			if n.Opcode == "++" {
				v.C.V.I++
			} else {
				v.C.V.I--
			}
			if n.Postfix {
				return old
			}
			return v
		}
	case "~":
		if v := m.load(e); v.K == Int {
			v.I = ^v.I
			return v
		}
	}
	m.fail(n, "operator %s", n.Opcode)
	return Value{}
}

func (m *Machine) binary(n *Node) Value {
	l, r := n.Inner[0], n.Inner[1]
	switch n.Opcode {
	case "&&":
		return boolean(m.truth(m.eval(l), l) && m.truth(m.eval(r), r))
	case "||":
		return boolean(m.truth(m.eval(l), l) || m.truth(m.eval(r), r))
	case ",":
		m.eval(l)
		return m.eval(r)
	case "=":
		v := m.rvalue(m.eval(r))
		c := m.eval(l)
		if c.K != Ref {
			m.fail(n, "assigns to %v", c)
		}
		c.C.V = m.copy(v)
		return c
	}
	a, b := m.load(l), m.load(r)
	switch n.Opcode {
	case "==", "!=":
		return boolean(m.isEqual(a, b, n) == (n.Opcode == "=="))
	}
	return m.arith(n.Opcode, a, b, n)
}

// isEqual also understands the order of two texts compared with zero.
func (m *Machine) isEqual(a, b Value, n *Node) bool {
	if b.K == Cmp {
		a, b = b, a
	}
	if a.K == Cmp {
		if b.K == Int && b.I == 0 {
			return m.equal(*a.L, *a.R, n)
		}
		m.fail(n, "the order of texts")
	}
	return m.equal(a, b, n)
}

func (m *Machine) arith(op string, a, b Value, n *Node) Value {
	if a.K == Undef || b.K == Undef {
		m.fail(n, "a variable is used before it has a value")
	}
	isI := func(v Value) bool { return v.K == Int || v.K == Bool || v.K == Enum }
	if isI(a) && isI(b) {
		x, y := a.I, b.I
		t := plain(n.Type.String())
		switch op {
		case "<":
			return boolean(x < y)
		case ">":
			return boolean(x > y)
		case "<=":
			return boolean(x <= y)
		case ">=":
			return boolean(x >= y)
		case "+":
			return m.toInt(Value{K: Int, I: x + y}, t, n)
		case "-":
			return m.toInt(Value{K: Int, I: x - y}, t, n)
		case "*":
			return m.toInt(Value{K: Int, I: x * y}, t, n)
		case "/", "%":
			if y == 0 {
				m.fail(n, "division by zero")
			}
			if op == "/" {
				return Value{K: Int, I: x / y, T: t}
			}
			return Value{K: Int, I: x % y, T: t}
		case "&":
			return Value{K: Int, I: x & y, T: t}
		case "|":
			return Value{K: Int, I: x | y, T: t}
		case "^":
			return Value{K: Int, I: x ^ y, T: t}
		case "<<":
			return m.toInt(Value{K: Int, I: x << uint(y)}, t, n)
		case ">>":
			return Value{K: Int, I: x >> uint(y), T: t}
		}
	}
	isN := func(v Value) bool { return isI(v) || v.K == Float }
	if isN(a) && isN(b) {
		f := func(v Value) float64 {
			if v.K == Float {
				return v.F
			}
			return float64(v.I)
		}
		x, y := f(a), f(b)
		switch op {
		case "<":
			return boolean(x < y)
		case ">":
			return boolean(x > y)
		case "<=":
			return boolean(x <= y)
		case ">=":
			return boolean(x >= y)
		case "+":
			return Value{K: Float, F: x + y, T: "double"}
		case "-":
			return Value{K: Float, F: x - y, T: "double"}
		case "*":
			return Value{K: Float, F: x * y, T: "double"}
		case "/":
			return Value{K: Float, F: x / y, T: "double"}
		}
	}
	if a.K == PtrK && b.K == Int && op == "+" && a.C != nil {
		m.fail(n, "pointer arithmetic")
	}
	m.fail(n, "cannot tell %v %s %v", a, op, b)
	return Value{}
}
