package absint

import (
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callCtx struct {
	in   *Interp
	st   *State
	args []*Term
	name string
	pos  string
	fn   string
	res  *types.Tuple
}

type extern func(c *callCtx) []Outcome

func (c *callCtx) ret(ts ...*Term) []Outcome { return []Outcome{{"return", ts, c.st}} }

func (c *callCtx) resType(i int) types.Type {
	if c.res == nil || i >= c.res.Len() {
		return nil
	}
	return c.res.At(i).Type()
}

// pure makes the result of a deterministic function without effects.
func (c *callCtx) pure() []Outcome {
	n := c.res.Len()
	var ts []*Term
	if c.in.C.NilUnit[c.name] && len(c.args) == 2 && n == 2 {
		for i, a := range c.args {
			if a.IsNil() {
				return c.ret(c.args[1-i], c.in.U.Nil())
			}
		}
	}
	for i := 0; i < n; i++ {
		nm := c.name
		if n > 1 {
			nm += "@" + string(rune('0'+i))
		}
		ts = append(ts, c.in.U.App(nm, c.resType(i), c.args...))
	}
	return c.ret(ts...)
}

// eff records an effect with fresh results.
func (c *callCtx) eff(kind string) (*Effect, []Outcome) {
	u := c.in.U
	id := c.name + "#" + u.Fresh()
	e := &Effect{Kind: kind, Name: c.name, Args: c.args, Pos: c.pos, Fn: c.fn}
	if kind == "call" || kind == "opaque" {
		e.St = c.st.clone()
	}
	if c.res != nil {
		for i := 0; i < c.res.Len(); i++ {
			if c.in.C.Known && kind == "call" && isErrorType(c.resType(i)) {
				e.Res = append(e.Res, u.Nil())
				continue
			}
			e.Res = append(e.Res, u.mk(Term{Op: ORes, Aux: id, Idx: i, Typ: c.resType(i)}))
		}
	}
	c.in.effect(c.st, e)
	return e, c.ret(e.Res...)
}

func sigResults(t types.Type) *types.Tuple {
	switch x := t.(type) {
	case *types.Tuple:
		return x
	case nil:
		return types.NewTuple()
	default:
		return types.NewTuple(types.NewVar(token.NoPos, nil, "", x))
	}
}

// callee evaluates the function and arguments of a call.
func (in *Interp) callee(fr *frame, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	f := in.val(fr, c.Value)
	if c.IsInvoke() {
		args = append(args, f)
		f = nil
	}
	for _, a := range c.Args {
		args = append(args, in.val(fr, a))
	}
	return f, args
}

func (in *Interp) call(caller *ssa.Function, c *ssa.CallCommon, f *Term, args []*Term, st *State, pos token.Pos, resT types.Type) []Outcome {
	in.Stats.Calls++
	cc := &callCtx{in: in, st: st, args: args, pos: in.pos(pos), fn: caller.String(), res: sigResults(resT)}
	out := in.dispatch(cc, c, f, args, st)
	if in.C.ErrEvents && cc.res != nil {
		for i := 0; i < cc.res.Len(); i++ {
			if !isErrorType(cc.res.At(i).Type()) {
				continue
			}
			for _, o := range out {
				if o.Kind == "return" && i < len(o.Res) {
					in.effect(o.St, &Effect{Kind: "err", Name: cc.name, Args: cc.args, Res: []*Term{o.Res[i]}, Pos: cc.pos, Fn: cc.fn})
				}
			}
		}
	}
	return out
}

func (in *Interp) dispatch(cc *callCtx, c *ssa.CallCommon, f *Term, args []*Term, st *State) []Outcome {
	if c.IsInvoke() {
		return in.invoke(cc, c, args)
	}
	switch f.Op {
	case OFunc:
		return in.static(cc, f.Fn, nil)
	case OClosure:
		return in.static(cc, f.Fn, f.Args)
	case OApp:
		if strings.HasPrefix(f.Aux, "builtin:") {
			return in.builtin(cc, strings.TrimPrefix(f.Aux, "builtin:"), c)
		}
	}
	if f.IsNil() {
		in.effect(st, &Effect{Kind: "may-nil", Name: "call of nil function", Pos: cc.pos, Fn: cc.fn})
		return []Outcome{{"panic", nil, st}}
	}
	if in.C.NilChecks && !st.F.isNonNil(in.U, f) {
		in.effect(st, &Effect{Kind: "may-nil", Name: "call of function", Args: []*Term{f}, Pos: cc.pos, Fn: cc.fn})
	}
	cc.name = "dynamic"
	cc.args = append([]*Term{f}, args...)
	_, o := cc.eff("call")
	return o
}

func (in *Interp) invoke(cc *callCtx, c *ssa.CallCommon, args []*Term) []Outcome {
	u, st := in.U, cc.st
	recv := args[0]
	if recv.Op == OIface {
		fn := in.methodOf(recv.Typ, c.Method)
		if fn != nil {
			cc.args = append([]*Term{recv.Args[0]}, args[1:]...)
			return in.static(cc, fn, nil)
		}
	}
	if recv.IsNil() {
		in.effect(st, &Effect{Kind: "may-nil", Name: "method call on nil interface", Args: args, Pos: cc.pos, Fn: cc.fn})
		return []Outcome{{"panic", nil, st}}
	}
	it := c.Value.Type()
	if in.C.NilChecks && !st.F.isNonNil(u, recv) {
		in.effect(st, &Effect{Kind: "may-nil", Name: "method call", Args: []*Term{recv}, Pos: cc.pos, Fn: cc.fn})
		st.F.Assume(u, u.Eq(recv, u.Nil()), false)
	}
	if in.C.Impls != nil {
		for _, t := range in.C.Impls(it, c.Method) {
			is := u.mk(Term{Op: OTypeIs, Aux: typeKey(t), Args: []*Term{recv}, Typ: types.Typ[types.Bool]})
			if in.decide(st, is) {
				fn := in.methodOf(t, c.Method)
				w := u.mk(Term{Op: OUnwrap, Args: []*Term{recv}, Typ: t})
				cc.args = append([]*Term{w}, args[1:]...)
				return in.static(cc, fn, nil)
			}
		}
	}
	cc.name = "(" + types.TypeString(it, nil) + ")." + c.Method.Name()
	if in.C.Pure[cc.name] {
		return cc.pure()
	}
	return in.external(cc)
}

func (in *Interp) methodOf(t types.Type, m *types.Func) *ssa.Function {
	sel := in.C.Prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return in.C.Prog.MethodValue(sel)
}

// FuncName names a function without type arguments.
func FuncName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (in *Interp) static(cc *callCtx, fn *ssa.Function, binds []*Term) []Outcome {
	cc.name = FuncName(fn)
	if in.inInit && fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Synthetic != "" {
		return cc.ret()
	}
	if in.C.Pure[cc.name] {
		return cc.pure()
	}
	if in.C.Opaque != nil && in.C.Opaque(fn) {
		return in.opaque(cc, fn)
	}
	if _, ok := in.extFn[cc.name]; !ok && fn.Blocks != nil && in.local(fn) {
		for _, s := range in.stack {
			if s == fn {
				cc.name = "recursive:" + cc.name
				return in.opaque(cc, fn)
			}
		}
		return in.execFunc(cc.st, fn, cc.args, binds)
	}
	return in.external(cc)
}

func (in *Interp) local(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return in.C.InModule(f.Pkg.Pkg.Path())
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return in.C.InModule(o.Pkg.Pkg.Path())
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return in.C.InModule(f.Object().Pkg().Path())
		}
	}
	return fn.Synthetic != ""
}

// opaque records a call to a function that is analysed elsewhere.  What its pointer arguments point to may change.
func (in *Interp) opaque(cc *callCtx, fn *ssa.Function) []Outcome {
	in.needs(cc)
	e, o := cc.eff("opaque")
	if !in.C.ReadOnly[cc.name] {
		in.havocArgs(cc, e)
	}
	return o
}

func (in *Interp) havocArgs(cc *callCtx, e *Effect) {
	id := cc.name
	if len(e.Res) > 0 && e.Res[0].Op == ORes {
		id = e.Res[0].Aux
	} else {
		id += "#" + in.U.Fresh()
	}
	e.Ver = id
	for _, a := range cc.args {
		if a.Op == OIface {
			a = a.Args[0]
		}
		if a.Typ == nil {
			continue
		}
		if _, ok := a.Typ.Underlying().(*types.Pointer); !ok {
			continue
		}
		if a.Op == OAlloc || a.Op == OFieldAddr || a.Op == OIndexAddr {
			v := id
			for c := range cc.st.Mem {
				if under(c, a) {
					delete(cc.st.Mem, c)
				}
			}
			if a.Op == OAlloc {
				cc.st.Ver["A:"+a.Aux] = v
			} else {
				in.fillUnknown(cc.st, a, derefT(a.Typ), v)
			}
		} else if n, ok := derefT(a.Typ).(*types.Named); ok && (a.Op == OInit || a.Op == OParam || a.Op == OUnwrap) && n.Obj().Pkg() != nil && in.C.InModule(n.Obj().Pkg().Path()) {
			for c := range cc.st.Mem {
				if under(c, a) {
					delete(cc.st.Mem, c)
				}
			}
			in.fillUnknown(cc.st, a, derefT(a.Typ), id)
		}
	}
}

// external handles a call to something outside the module.
func (in *Interp) external(cc *callCtx) []Outcome {
	if cc.name == "os.OpenFile" && len(cc.args) == 3 {
		// the same as os.Create
		fl, ok := cc.args[1].IntVal()
		perm, ok2 := cc.args[2].IntVal()
		if rest := int(fl) &^ (os.O_WRONLY | os.O_RDWR); ok && ok2 && rest == os.O_CREATE|os.O_TRUNC && int(fl) != rest && (perm == 0o666 || perm == 0o644 || perm == 0o664) {
			cc.name, cc.args = "os.Create", cc.args[:1]
		}
	}
	in.needs(cc)
	if in.C.Hook != nil {
		if vs, ok := in.C.Hook(cc.name, cc.args); ok {
			return cc.ret(vs...)
		}
	}
	if f, ok := in.extFn[cc.name]; ok {
		return f(cc)
	}
	if pureFuncs[cc.name] || purePkg(cc.name) {
		if vs, ok := in.fold(cc); ok {
			return cc.ret(vs...)
		}
		// variadic lists are compared by their elements
		for i, a := range cc.args {
			cc.args[i] = in.Resolve(cc.st, a)
		}
		return cc.pure()
	}
	e, o := cc.eff("call")
	if !readOnly[cc.name] && !in.C.ReadOnly[cc.name] {
		in.havocArgs(cc, e)
	}
	return o
}

func purePkg(name string) bool {
	for _, p := range []string{"strings.", "unicode.", "strconv.", "path.", "bytes.", "unicode/utf8.", "html.", "cmp.", "maps.", "slices."} {
		if strings.HasPrefix(name, p) && !strings.Contains(name[len(p):], ".") {
			return true
		}
	}
	return false
}

// pureFuncs have results that depend on nothing but their arguments.
var pureFuncs = map[string]bool{
	"path/filepath.Join": true, "path/filepath.Clean": true, "path/filepath.Dir": true, "path/filepath.Base": true,
	"path/filepath.IsLocal": true, "path/filepath.Rel": true, "path/filepath.Ext": true, "path/filepath.ToSlash": true,
	"path/filepath.FromSlash": true, "path/filepath.IsAbs": true, "path/filepath.Split": true,
	"errors.Is": true, "errors.Unwrap": true, "errors.As": true,
	"path/filepath.Abs": true, // depends on the working directory, which the tools never change
	"os.SameFile":       true, "fmt.Sprint": true, "fmt.Sprintln": true,
	"(error).Error": true, "(*os.File).Name": true, "(fmt.Stringer).String": true, "(io/fs.DirEntry).Name": true,
	"(reflect.Type).String": true, "reflect.TypeOf": true,
}

// readOnly calls do not change what their arguments point to.
var readOnly = map[string]bool{
	"os.Open": true, "os.Create": true, "os.MkdirAll": true, "os.RemoveAll": true, "os.Stat": true, "io.Copy": true,
	"(*os.File).Close": true, "(*os.File).Stat": true, "(io.Closer).Close": true, "(io.ReadCloser).Close": true,
	"encoding/json.Marshal": true, "(*encoding/json.Encoder).Encode": true, "(*encoding/xml.Encoder).Encode": true,
	"encoding/json.NewDecoder": true, "encoding/json.NewEncoder": true, "encoding/xml.NewDecoder": true, "encoding/xml.NewEncoder": true,
	"(*encoding/json.Encoder).SetIndent": true, "(*encoding/xml.Encoder).Indent": true,
	"fmt.Fprintln": true, "fmt.Fprintf": true, "fmt.Fprint": true, "io.WriteString": true, "io.ReadAll": true,
	"(*text/template.Template).ExecuteTemplate": true, "(*text/template.Template).Execute": true,
	"(*text/template.Template).Funcs": true, "(*text/template.Template).ParseFS": true, "text/template.New": true, "text/template.ParseFS": true,
	"(*encoding/csv.Reader).Read": true, "(*encoding/csv.Reader).ReadAll": true,
	"(embed.FS).Open": true, "(embed.FS).ReadDir": true, "(embed.FS).ReadFile": true, "io/fs.ReadDir": true,
	"(io.Writer).Write": true,
}

// fold evaluates a few pure functions on constants.
func (in *Interp) fold(cc *callCtx) ([]*Term, bool) {
	var ss []string
	for _, a := range cc.args {
		s, ok := a.StrVal()
		if !ok {
			return nil, false
		}
		ss = append(ss, s)
	}
	u := in.U
	switch cc.name {
	case "strings.ToLower", "bytes.ToLower":
		return []*Term{u.Str(strings.ToLower(ss[0]))}, true
	case "strings.ToUpper", "bytes.ToUpper":
		return []*Term{u.Str(strings.ToUpper(ss[0]))}, true
	case "strings.TrimSpace", "bytes.TrimSpace":
		return []*Term{u.Str(strings.TrimSpace(ss[0]))}, true
	case "path/filepath.Clean", "path.Clean":
		if ss[0] == "" {
			return []*Term{u.Str(".")}, true
		}
	case "strings.Contains":
		return []*Term{u.Bool(strings.Contains(ss[0], ss[1]))}, true
	case "strings.HasPrefix":
		return []*Term{u.Bool(strings.HasPrefix(ss[0], ss[1]))}, true
	case "strings.HasSuffix":
		return []*Term{u.Bool(strings.HasSuffix(ss[0], ss[1]))}, true
	}
	return nil, false
}

func (in *Interp) builtin(cc *callCtx, name string, c *ssa.CallCommon) []Outcome {
	u, st, args := in.U, cc.st, cc.args
	switch name {
	case "len", "cap":
		a := args[0]
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			ct := in.Contents(st, a)
			if n, ok := in.mapSize(ct); ok {
				return cc.ret(u.Int(int64(n)))
			}
			return cc.ret(u.App("mapsize", types.Typ[types.Uint], ct))
		}
		if name == "cap" {
			return cc.ret(u.App("cap", types.Typ[types.Int], a))
		}
		return cc.ret(u.Len(a))
	case "append":
		t := c.Args[0].Type()
		if len(args) < 2 {
			return cc.ret(args[0])
		}
		if isBytes(t) {
			// byte slices are strings here
			x, y := args[0], args[1]
			if x.IsNil() || x.Op == OMake || x.Op == OList && len(x.Args) == 0 {
				return cc.ret(y)
			}
			return cc.ret(u.Concat(x, y))
		}
		l := in.Resolve(st, args[0])
		r := in.Resolve(st, args[1])
		if r.IsNil() || r.Op == OList && len(r.Args) == 0 {
			return cc.ret(args[0])
		}
		if b := args[0]; b.Op == OSub && (b.Args[0].Op == OParam || b.Args[0].Op == OInit) && in.decideNot(cc.st, u.Eq(b.Args[2], u.Len(b.Args[0]))) {
			in.fail("append overwrites elements of %s", b.Args[0])
		}
		if l.Op == OMake || l.Op == OSub || l.Op == OInit || l.Op == OLV || l.Op == OParam {
			l = args[0]
		}
		res := u.Cat(t, l, r)
		return cc.ret(res)
	case "copy":
		e, o := cc.eff("call")
		e.Name = "copy"
		dst := args[0]
		base := dst
		if base.Op == OSub {
			base = base.Args[0]
		}
		for k := range st.Mem {
			if under(k, base) {
				delete(st.Mem, k)
			}
		}
		st.Ver[verKeyList(base)] = e.Res[0].Aux
		return o
	case "delete":
		m := args[0]
		st.Maps[m] = in.mapDelete(st, m, args[1])
		return cc.ret()
	case "print", "println":
		cc.name = "print"
		_, o := cc.eff("call")
		return o
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			le := in.decide(st, u.Less(r, a, false))
			if le == (name == "max") {
				r = a
			}
		}
		return cc.ret(r)
	case "ssa:wrapnilchk":
		return cc.ret(args[0])
	case "recover":
		return cc.ret(u.Nil())
	case "clear":
		m := args[0]
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			st.Maps[m] = u.mk(Term{Op: OMEmpty})
			return cc.ret()
		}
	}
	in.fail("builtin %s at %s", name, cc.pos)
	return nil
}

func verKeyList(l *Term) string { return "L:" + constant.MakeInt64(int64(l.ID)).ExactString() }

func unpack(c *callCtx, l *Term) []*Term {
	es, ok := c.in.Elems(c.st, l)
	if !ok {
		return []*Term{c.in.U.App("spread", nil, l)}
	}
	return es
}

func unwrapIface(t *Term) *Term {
	if t.Op == OIface {
		return t.Args[0]
	}
	return t
}

var externs map[string]extern

func init() {
	externs = map[string]extern{
		"fmt.Errorf": func(c *callCtx) []Outcome {
			args := append([]*Term{c.args[0]}, unpack(c, c.args[1])...)
			return c.ret(c.in.U.App("fmt.Errorf", c.resType(0), append(args, c.in.U.Str("@"+c.pos))...))
		},
		"errors.New": func(c *callCtx) []Outcome {
			return c.ret(c.in.U.App("errors.New", c.resType(0), c.args[0], c.in.U.Str("@"+c.pos)))
		},
		"errors.Join": func(c *callCtx) []Outcome {
			u := c.in.U
			var es []*Term
			for _, e := range unpack(c, c.args[0]) {
				if !c.in.decide(c.st, u.Eq(e, u.Nil())) {
					es = append(es, e)
				}
			}
			if len(es) == 0 {
				return c.ret(u.Nil())
			}
			return c.ret(u.App("errors.Join", c.resType(0), es...))
		},
		"fmt.Sprintf": func(c *callCtx) []Outcome {
			return c.in.sprintfAll(c, c.args[0], unpack(c, c.args[1]))
		},
		"fmt.Sprint": func(c *callCtx) []Outcome {
			es := unpack(c, c.args[0])
			if len(es) == 1 && c.in.C.Known {
				return c.in.sprintfAll(c, c.in.U.Str("%v"), es)
			}
			if len(es) == 1 {
				return c.ret(c.in.formatted("%v", es[0]))
			}
			// a space goes between two values neither of which is a string
			f := ""
			for i, e := range es {
				if e.Op != OIface || e.Typ == nil {
					return c.ret(c.in.U.App("fmt.Sprint", c.resType(0), es...))
				}
				if i > 0 && !isString(e.Typ) && !isString(es[i-1].Typ) {
					f += " "
				}
				f += "%v"
			}
			return c.in.sprintfAll(c, c.in.U.Str(f), es)
		},
		"strings.Cut": cut, "bytes.Cut": cut,
		"strings.EqualFold": equalFold, "bytes.EqualFold": equalFold,
		"strings.Index": index, "strings.IndexByte": index, "strings.IndexRune": index, "bytes.IndexByte": index, "bytes.Index": index,
		"strings.ContainsRune": func(c *callCtx) []Outcome {
			return c.ret(c.in.U.App("contains", types.Typ[types.Bool], c.args[0], c.in.runeStr(c.args[1])))
		},
		"bytes.Contains": func(c *callCtx) []Outcome {
			return c.ret(c.in.U.App("contains", types.Typ[types.Bool], c.args...))
		},
		"strings.Contains": func(c *callCtx) []Outcome {
			if vs, ok := c.in.fold(c); ok {
				return c.ret(vs...)
			}
			return c.ret(c.in.U.App("contains", types.Typ[types.Bool], c.args...))
		},
		"strings.Replace": func(c *callCtx) []Outcome {
			if n, ok := c.args[3].IntVal(); ok && n < 0 {
				c.name, c.args = "strings.ReplaceAll", c.args[:3]
			}
			return c.pure()
		},
		"strings.SplitN":     splitN,
		"bytes.SplitN":       splitN,
		"strings.Join":       joinStr,
		"bytes.Join":         joinStr,
		"path/filepath.Join": joinPath("path/filepath.Join"),
		"path.Join":          joinPath("path.Join"),
		"strings.TrimSpace":  alias("strings.TrimSpace"), "bytes.TrimSpace": alias("strings.TrimSpace"),
		"strings.ToLower": alias("strings.ToLower"), "bytes.ToLower": alias("strings.ToLower"),
		"strings.ToUpper": alias("strings.ToUpper"), "bytes.ToUpper": alias("strings.ToUpper"),
		"strconv.AppendInt": appendInt, "strconv.AppendUint": appendInt,
		"strconv.FormatUint": func(c *callCtx) []Outcome {
			return c.ret(c.in.U.App("strconv.FormatInt", types.Typ[types.String], c.args[0], c.args[1]))
		},
		"strconv.Itoa": func(c *callCtx) []Outcome {
			return c.ret(c.in.U.App("strconv.FormatInt", types.Typ[types.String], c.args[0], c.in.U.Int(10)))
		},
		"(*strings.Builder).WriteString": builderWrite(func(c *callCtx) *Term { return c.args[1] }),
		"(*strings.Builder).WriteRune":   builderWrite(func(c *callCtx) *Term { return c.in.runeStr(c.args[1]) }),
		"(*strings.Builder).WriteByte":   builderWrite(func(c *callCtx) *Term { return c.in.runeStr(c.args[1]) }),
		"(*strings.Builder).String":      func(c *callCtx) []Outcome { return c.ret(c.in.builderText(c)) },
		"(*strings.Builder).Len":         func(c *callCtx) []Outcome { return c.ret(c.in.U.Len(c.in.builderText(c))) },
		"(*strings.Builder).Grow":        func(c *callCtx) []Outcome { return c.ret() },
		"(*strings.Builder).Reset": func(c *callCtx) []Outcome {
			c.st.Mem[c.in.builderCell(c.args[0])] = c.in.U.Str("")
			return c.ret()
		},
		"reflect.DeepEqual": deepEqual,
		"os.Exit": func(c *callCtx) []Outcome {
			c.eff("call")
			return []Outcome{{"exit", c.args, c.st}}
		},
		"sort.Strings": sortList, "sort.Ints": sortList, "sort.Slice": sortList, "sort.SliceStable": sortList, "sort.Sort": sortList,
		"slices.Sort": sortList, "slices.SortFunc": sortList,
		"unicode/utf8.DecodeRuneInString": func(c *callCtx) []Outcome { return c.pure() },
	}
}

// index models the position of a separator: not found, or where the text before it ends.
func index(c *callCtx) []Outcome {
	u := c.in.U
	a, sep := c.args[0], c.args[1]
	if a.IsNil() {
		a = u.Str("")
	}
	if isInt(sep.Typ) {
		sep = c.in.runeStr(sep)
	}
	if s, ok := a.StrVal(); ok {
		if p, ok := sep.StrVal(); ok {
			return c.ret(u.Int(int64(strings.Index(s, p))))
		}
	}
	if !c.in.decide(c.st, u.App("contains", types.Typ[types.Bool], a, sep)) {
		return c.ret(u.Int(-1))
	}
	i := u.App("index", types.Typ[types.Uint], a, sep)
	c.st.F.Assume(u, u.Less(u.Add(i, u.Len(sep), 1), u.Len(a), false), true)
	return c.ret(i)
}

func alias(name string) extern {
	return func(c *callCtx) []Outcome {
		if vs, ok := c.in.fold(c); ok {
			return c.ret(vs...)
		}
		t := c.args[0]
		if t.IsNil() {
			t = c.in.U.Str("")
		}
		return c.ret(c.in.U.App(name, c.resType(0), t))
	}
}

func (in *Interp) runeStr(r *Term) *Term {
	if v, ok := r.IntVal(); ok {
		return in.U.Str(string(rune(v)))
	}
	return in.U.App("runestr", types.Typ[types.String], r)
}

func (in *Interp) builderCell(p *Term) *Term {
	return in.U.mk(Term{Op: OFieldAddr, Idx: 99, Args: []*Term{p}, Typ: types.NewPointer(types.Typ[types.String])})
}

func (in *Interp) builderText(c *callCtx) *Term {
	if t, ok := c.st.Mem[in.builderCell(c.args[0])]; ok {
		return t
	}
	if r, _ := rootOf(c.args[0]); r.Op == OAlloc {
		return in.U.Str("")
	}
	return in.Init(in.builderCell(c.args[0]), types.Typ[types.String], "")
}

func builderWrite(f func(c *callCtx) *Term) extern {
	return func(c *callCtx) []Outcome {
		c.st.Mem[c.in.builderCell(c.args[0])] = c.in.U.Concat(c.in.builderText(c), f(c))
		var rs []*Term
		if c.res.Len() == 2 {
			rs = append(rs, c.in.U.App("written", types.Typ[types.Int], f(c)))
		}
		return c.ret(append(rs, c.in.U.Nil())...)
	}
}

// decideNot reports whether a condition may be false.
func (in *Interp) decideNot(st *State, c *Term) bool { return st.F.Decide(in.U, c) != True }

// sortList permutes a list in place. What it sorts by is part of the call: whether one element comes before another.
func sortList(c *callCtx) []Outcome {
	in, u := c.in, c.in.U
	l := unwrapIface(c.args[0])
	by := c.args[1:]
	if in.C.Known && in.knownSort(c, l) {
		return c.ret()
	}
	if t := in.sortOrder(c, l); t != nil {
		by = []*Term{t}
		c.name = "sort"
	}
	e, o := c.eff("call")
	e.Args = append([]*Term{l}, by...)
	id := "sorted#" + u.Fresh()
	e.Res = append(e.Res, u.mk(Term{Op: ORes, Aux: id, Typ: types.Typ[types.Int]}))
	for k := range c.st.Mem {
		if under(k, l) {
			delete(c.st.Mem, k)
		}
	}
	c.st.Ver[verKeyList(l)] = id
	return o
}

// sortOrder tells when element i of a list goes before element j, if that has a simple answer.
func (in *Interp) sortOrder(c *callCtx, l *Term) *Term {
	u := in.U
	if l.Typ == nil {
		return nil
	}
	sl, ok := l.Typ.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	bt := types.Typ[types.Bool]
	x, y := u.Param("sort.i", types.Typ[types.Int]), u.Param("sort.j", types.Typ[types.Int])
	ex, ey := u.Param("sort.x", sl.Elem()), u.Param("sort.y", sl.Elem())
	switch c.name {
	case "sort.Strings", "sort.Ints", "slices.Sort":
		return in.binop(c.st, token.LSS, ex, ey, bt, sl.Elem())
	case "sort.Slice", "slices.SortFunc", "sort.SliceStable":
	default:
		return nil
	}
	f := c.args[1]
	if f.Op != OClosure && f.Op != OFunc || f.Fn == nil || len(f.Fn.Params) != 2 {
		return nil
	}
	if c.name == "slices.SortFunc" {
		x, y = ex, ey
	}
	st := c.st.clone()
	n := len(st.Effects)
	if c.name != "slices.SortFunc" {
		for _, k := range []*Term{x, y} {
			st.F.Assume(u, u.Less(u.Int(0), k, false), true)
			st.F.Assume(u, u.Less(k, in.LenOf(l), true), true)
		}
	}
	os := in.execFunc(st, f.Fn, []*Term{x, y}, f.Args)
	if len(os) != 1 || os[0].Kind != "return" || len(os[0].Res) != 1 {
		return nil
	}
	o := os[0]
	if len(o.St.Effects) != n {
		return nil
	}
	t := o.Res[0]
	if c.name != "slices.SortFunc" {
		ix, iy := u.IndexAddr(l, x, sl.Elem()), u.IndexAddr(l, y, sl.Elem())
		vx, vy := in.Load(st, ix, sl.Elem()), in.Load(st, iy, sl.Elem())
		t = u.Map(t, func(z *Term) *Term {
			switch z {
			case vx:
				return ex
			case vy:
				return ey
			}
			return nil
		})
	}
	stable := true
	u.Map(t, func(z *Term) *Term {
		if z.Op == OIndexAddr || z.Op == OUnk || z.Op == ORes || z.Op == OInit {
			stable = false
		}
		return nil
	})
	if !stable {
		return nil
	}
	if c.name == "slices.SortFunc" {
		t = u.Less(t, u.Int(0), true)
	}
	return t
}

// splitN models SplitN(text, sep, n) for constant n: between one and n fields.
func splitN(c *callCtx) []Outcome {
	u := c.in.U
	n, ok := c.args[2].IntVal()
	if !ok || n < 1 || n > 8 {
		c.name = "strings.SplitN"
		return c.pure()
	}
	text, sep := c.args[0], c.args[1]
	if text.IsNil() {
		text = u.Str("")
	}
	var fields []*Term
	et := types.Typ[types.String]
	for int64(len(fields)) < n-1 {
		if !c.in.decide(c.st, u.App("contains", types.Typ[types.Bool], text, sep)) {
			break
		}
		fields = append(fields, u.App("before", et, text, sep))
		text = u.App("after", et, text, sep)
	}
	fields = append(fields, text)
	return c.ret(u.List(c.resType(0), fields...))
}

func joinStr(c *callCtx) []Outcome {
	u := c.in.U
	es, ok := c.in.Elems(c.st, c.args[0])
	if !ok {
		return c.ret(u.App("strings.Join", types.Typ[types.String], c.args[0], c.args[1]))
	}
	var parts []*Term
	for i, e := range es {
		if i > 0 {
			parts = append(parts, c.args[1])
		}
		parts = append(parts, e)
	}
	return c.ret(u.Concat(parts...))
}

// joinPath models path joining; nested joins are flattened.
func joinPath(name string) extern {
	return func(c *callCtx) []Outcome {
		u := c.in.U
		var parts []*Term
		var add func(t *Term)
		add = func(t *Term) {
			if s, ok := t.StrVal(); ok && s == "" {
				return
			}
			if t.Op == OApp && t.Aux == name {
				for _, a := range t.Args {
					add(a)
				}
				return
			}
			parts = append(parts, t)
		}
		for _, t := range unpack(c, c.args[0]) {
			add(t)
		}
		if len(parts) == 0 {
			return c.ret(u.Str(""))
		}
		return c.ret(u.App(name, types.Typ[types.String], parts...))
	}
}

// formatted is the text of a value under a verb.
func (in *Interp) formatted(verb string, v *Term) *Term {
	u := in.U
	var t types.Type = v.Typ
	x := v
	if v.Op == OIface {
		x, t = v.Args[0], v.Typ
	}
	if verb == "%v" || verb == "%s" || verb == "%d" {
		if (isString(t) || t != nil && isBytes(t) && verb == "%s") && !hasMethod(t, "String") && !hasMethod(t, "Error") {
			return x
		}
		if isInt(t) && verb != "%s" && (!hasMethod(t, "String") && !hasMethod(t, "Error") || verb == "%d") {
			return u.App("strconv.FormatInt", types.Typ[types.String], x, u.Int(10))
		}
		if verb != "%d" && hasMethod(t, "Error") {
			return u.App("Error()", types.Typ[types.String], x)
		}
		if verb != "%d" && hasMethod(t, "String") {
			return u.App("String():"+typeKey(t), types.Typ[types.String], x)
		}
	}
	return u.mk(Term{Op: OFmt, Aux: verb + ":" + typeKey(t), Args: []*Term{x}, Typ: types.Typ[types.String]})
}

func hasMethod(t types.Type, name string) bool {
	if t == nil {
		return false
	}
	return types.NewMethodSet(t).Lookup(nil, name) != nil
}

func (in *Interp) sprintf(c *callCtx, f *Term, args []*Term) *Term {
	u := in.U
	fs, ok := f.StrVal()
	if !ok {
		return u.App("fmt.Sprintf", types.Typ[types.String], append([]*Term{f}, args...)...)
	}
	var parts []*Term
	lit := ""
	k := 0
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			lit += string(fs[i])
			continue
		}
		if i+1 < len(fs) && fs[i+1] == '%' {
			lit += "%"
			i++
			continue
		}
		j := i + 1
		for j < len(fs) && strings.IndexByte("+-# 0123456789.[]*", fs[j]) >= 0 {
			j++
		}
		if j >= len(fs) || k >= len(args) || strings.ContainsAny(fs[i:j], "[]*") {
			return u.App("fmt.Sprintf", types.Typ[types.String], append([]*Term{f}, args...)...)
		}
		parts = append(parts, u.Str(lit), in.formatted(fs[i:j+1], args[k]))
		lit = ""
		k++
		i = j
	}
	parts = append(parts, u.Str(lit))
	return u.Concat(parts...)
}

// deepEqual compares values of known types; otherwise it is an uninterpreted symmetric relation.
func deepEqual(c *callCtx) []Outcome {
	u, in := c.in.U, c.in
	a, b := c.args[0], c.args[1]
	if a.IsNil() && b.IsNil() {
		return c.ret(u.Bool(true))
	}
	if a.IsNil() && b.Op == OIface || b.IsNil() && a.Op == OIface {
		return c.ret(u.Bool(false))
	}
	if a.Op == OIface && b.Op == OIface {
		if !types.Identical(a.Typ, b.Typ) {
			return c.ret(u.Bool(false))
		}
		x, y, t := a.Args[0], b.Args[0], a.Typ
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
			if _, ok := t.Underlying().(*types.Basic); ok && c.st.F.isNonNil(u, x) && c.st.F.isNonNil(u, y) {
				x, y = in.Load(c.st, x, t), in.Load(c.st, y, t)
				return c.ret(u.Eq(x, y))
			}
		} else if _, ok := t.Underlying().(*types.Basic); ok {
			return c.ret(u.Eq(x, y))
		}
	}
	if a == b {
		return c.ret(u.Bool(true))
	}
	return c.ret(u.App("reflect.DeepEqual", types.Typ[types.Bool], order(a, b)...))
}

func appendInt(c *callCtx) []Outcome {
	u := c.in.U
	d := u.App("strconv.FormatInt", types.Typ[types.String], c.args[1], c.args[2])
	if c.args[0].IsNil() || c.args[0].Op == OMake || c.args[0].Op == OList && len(c.args[0].Args) == 0 {
		return c.ret(d)
	}
	return c.ret(u.Concat(c.args[0], d))
}

// cut models Cut(text, sep).
func cut(c *callCtx) []Outcome {
	u := c.in.U
	a, sep := c.args[0], c.args[1]
	if a.IsNil() {
		a = u.Str("")
	}
	found := u.App("contains", types.Typ[types.Bool], a, sep)
	if s, ok := a.StrVal(); ok {
		if p, ok := sep.StrVal(); ok {
			x, y, f := strings.Cut(s, p)
			return c.ret(u.Str(x), u.Str(y), u.Bool(f))
		}
	}
	if c.in.decide(c.st, found) {
		return c.ret(u.App("before", types.Typ[types.String], a, sep), u.App("after", types.Typ[types.String], a, sep), u.Bool(true))
	}
	return c.ret(a, u.Str(""), u.Bool(false))
}

// equalFold models equality up to case as equality of the lower-case texts.
func equalFold(c *callCtx) []Outcome {
	u := c.in.U
	var xs []*Term
	for _, a := range c.args {
		if s, ok := a.StrVal(); ok {
			xs = append(xs, u.Str(strings.ToLower(s)))
			continue
		}
		xs = append(xs, u.App("strings.ToLower", types.Typ[types.String], a))
	}
	return c.ret(u.Eq(xs[0], xs[1]))
}

// sprintfAll models Sprintf where arguments with a String method of the module are replaced by what it gives.
func (in *Interp) sprintfAll(c *callCtx, f *Term, args []*Term) []Outcome {
	fs, ok := f.StrVal()
	if !ok {
		return c.ret(in.sprintf(c, f, args))
	}
	verbs := strings.Split(strings.ReplaceAll(fs, "%%", ""), "%")[1:]
	for k, a := range args {
		if k >= len(verbs) || verbs[k] == "" || !strings.ContainsRune("vsq", rune(verbs[k][0])) || a.Op != OIface || !hasMethod(a.Typ, "String") || hasMethod(a.Typ, "Error") {
			continue
		}
		x := a.Args[0]
		if _, ok := a.Typ.Underlying().(*types.Pointer); ok && !c.st.F.isNonNil(in.U, x) {
			continue
		}
		sel := in.C.Prog.MethodSets.MethodSet(a.Typ).Lookup(nil, "String")
		if sel == nil {
			continue
		}
		fn := in.C.Prog.MethodValue(sel)
		if fn == nil || fn.Blocks == nil || !in.local(fn) || len(fn.Params) != 1 {
			continue
		}
		n := len(c.st.Effects)
		sub := &callCtx{in: in, st: c.st.clone(), pos: c.pos, fn: c.fn, args: []*Term{x}, res: fn.Signature.Results()}
		var outs []Outcome
		good := true
		for _, o := range in.static(sub, fn, nil) {
			if o.Kind != "return" || len(o.Res) != 1 || len(o.St.Effects) != n {
				good = false
				break
			}
			as := append([]*Term{}, args...)
			as[k] = in.U.Iface(types.Typ[types.String], o.Res[0])
			c2 := *c
			c2.st = o.St
			outs = append(outs, in.sprintfAll(&c2, f, as)...)
		}
		if good && len(outs) > 0 {
			return outs
		}
	}
	return c.ret(in.sprintf(c, f, args))
}
