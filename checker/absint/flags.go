package absint

import (
	"go/types"
	"strings"
)

// Command-line flags and chains of errors.

func (in *Interp) flagCell() *Term {
	return in.U.mk(Term{Op: OGlobal, Aux: "flag.(registered)", Typ: types.NewPointer(types.NewTuple())})
}

// flagVar models flag.XxxVar(p, name, value, usage) and flag.Xxx(name, value, usage).
func flagVar(kind string, t types.Type) (byVar, byPtr extern) {
	reg := func(c *callCtx, p, name, def *Term) {
		in, u := c.in, c.in.U
		in.Store(c.st, p, def, t)
		var rest []*Term
		if l, ok := c.st.Mem[in.flagCell()]; ok {
			rest = l.Args
		}
		c.st.Mem[in.flagCell()] = u.mk(Term{Op: OTuple, Args: append(rest[:len(rest):len(rest)], p, u.App("flag:"+kind, t, name, def))})
	}
	byVar = func(c *callCtx) []Outcome {
		reg(c, c.args[0], c.args[1], c.args[2])
		return c.ret()
	}
	byPtr = func(c *callCtx) []Outcome {
		p := c.in.U.mk(Term{Op: OAlloc, Aux: c.in.U.Fresh(), Typ: types.NewPointer(t)})
		reg(c, p, c.args[0], c.args[1])
		return c.ret(p)
	}
	return
}

func (in *Interp) parsedCell() *Term {
	return in.U.mk(Term{Op: OGlobal, Aux: "flag.(parsed)", Typ: types.NewPointer(types.Typ[types.Bool])})
}

// flagArgs is empty until the flags were parsed.
func (in *Interp) flagArgs(s *State) *Term {
	if _, ok := s.Mem[in.parsedCell()]; !ok {
		return in.U.Nil()
	}
	return in.U.App("flag.Args", types.NewSlice(types.Typ[types.String]))
}

func init() {
	for k, b := range map[string]types.BasicKind{"Bool": types.Bool, "String": types.String, "Int": types.Int, "Uint": types.Uint, "Float64": types.Float64, "Int64": types.Int64} {
		v, p := flagVar(k, types.Typ[b])
		externs["flag."+k+"Var"], externs["flag."+k] = v, p
	}
	externs["flag.Parse"] = func(c *callCtx) []Outcome {
		in := c.in
		if l, ok := c.st.Mem[in.flagCell()]; ok {
			for i := 0; i+1 < len(l.Args); i += 2 {
				in.Store(c.st, l.Args[i], l.Args[i+1], l.Args[i+1].Typ)
			}
		}
		delete(c.st.Mem, in.flagCell())
		c.st.Mem[in.parsedCell()] = in.U.Bool(true)
		for k := range c.st.Mem {
			if k.Op == OGlobal && k.Aux == "flag.Usage" {
				delete(c.st.Mem, k)
			}
		}
		c.args = nil
		_, o := c.eff("call")
		return o
	}
	externs["flag.Args"] = func(c *callCtx) []Outcome { return c.ret(c.in.flagArgs(c.st)) }
	externs["flag.NArg"] = func(c *callCtx) []Outcome { return c.ret(c.in.LenOf(c.in.flagArgs(c.st))) }
	externs["flag.Arg"] = func(c *callCtx) []Outcome {
		in, u := c.in, c.in.U
		l := in.flagArgs(c.st)
		if !in.decide(c.st, u.Less(c.args[0], in.LenOf(l), true)) || !in.decide(c.st, u.Less(u.Int(0), c.args[0], false)) {
			return c.ret(u.Str(""))
		}
		t := types.Typ[types.String]
		return c.ret(in.Load(c.st, u.IndexAddr(l, c.args[0], t), t))
	}
	for _, n := range []string{"fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln"} {
		externs[n] = func(c *callCtx) []Outcome {
			c.name = "fmt.Fprintln" // what is printed does not matter, unlike where
			c.args = append(c.args[:1:1], c.args[len(c.args)-1])
			_, o := c.eff("call")
			return o
		}
	}
	externs["errors.Is"] = func(c *callCtx) []Outcome {
		in, u := c.in, c.in.U
		var open []*Term
		var is func(e *Term) bool
		is = func(e *Term) bool {
			switch {
			case e.IsNil():
				return false
			case e == c.args[1]:
				return true
			case e.Op == OApp && e.Aux == "errors.Join":
				for _, a := range e.Args {
					if is(a) {
						return true
					}
				}
				return false
			case e.Op == OApp && e.Aux == "fmt.Errorf":
				f, ok := e.Args[0].StrVal()
				if !ok {
					break
				}
				verbs := strings.Split(strings.ReplaceAll(f, "%%", ""), "%")[1:]
				for k, v := range verbs {
					if strings.HasPrefix(v, "w") && k+1 < len(e.Args)-1 && is(e.Args[k+1]) {
						return true
					}
				}
				return false
			case e.Op == OApp && e.Aux == "errors.New" && c.args[1].Op == OApp && c.args[1].Aux == "errors.New":
				return false // another one
			case e.Op == OIface && c.args[1].Op == OApp && c.args[1].Aux == "errors.New" && !hasMethod(e.Typ, "Is") && !hasMethod(e.Typ, "Unwrap"):
				return false
			}
			open = append(open, e)
			return false
		}
		if is(c.args[0]) {
			return c.ret(u.Bool(true))
		}
		for _, e := range open {
			x := u.App("errors.Is", types.Typ[types.Bool], e, c.args[1])
			if len(open) == 1 {
				return c.ret(x)
			}
			if in.decide(c.st, x) {
				return c.ret(u.Bool(true))
			}
		}
		return c.ret(u.Bool(false))
	}
}
