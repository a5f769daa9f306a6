package rules

import (
	"golang.org/x/tools/go/ssa"

	"verif/checker/absint"
)

func init() {
	All["C01"] = Check{Spec: true, Run: runC01, Explain: "Abstract interpretation of trace.Read (helpers inlined, loops summarised to a fixpoint, Event.UnmarshalText opaque): " +
		"each iteration of the row loop is shown to read one row and to append one trace; element J of the prefix, for symbolic J, the forbidden event and the name are shown to be " +
		"what the property says as functions of the row; every failing path is shown to have met a read or parse error, every successful one none.",
		Assume: []string{"encoding/csv returns the records of the input in order, without comment lines, and io.EOF at the end only", "Event.UnmarshalText is decided by C09", "append does not alias (slices are values)"}}
}

const evUnmarshal = "(*" + Mod + "/internal/testlang.Event).UnmarshalText"

func runC01(c *Ctx) {
	r := c.R
	r.Rule("reader", "the CSV reader skips '#' comments, trims leading space, accepts any number of fields and splits at commas")
	r.Rule("rows", "each iteration that does not fail reads exactly one row and appends exactly one trace; success only at the end of the file")
	r.Rule("prefix", "prefix element J is the event parsed from cell J")
	r.Rule("forbid", "the forbidden event is parsed from the last cell")
	r.Rule("name", "the name is the trimmed text before the first colon of the first cell, or empty")
	r.Rule("errors", "a path fails exactly if a row cannot be read or a cell cannot be parsed")
	fn := c.fn("trace", "Read")
	if fn == nil {
		return
	}
	direct := c.try(func() { c.c01Direct(fn) })
	if len(direct.Findings) > 0 {
		// perhaps it does the same in another way
		ref := c.try(func() {
			c.same("rows", refs{Impl: fn, Spec: "TraceRead|TraceRead2", Opaque: []string{"(*~testlang.Event).UnmarshalText"}, Opt: absint.EquivOpts{ErrorsOnly: true}})
		})
		if len(ref.Findings) == 0 {
			direct = ref
		}
	}
	r.Merge(direct)
}

func (c *Ctx) c01Direct(fn *ssa.Function) {
	r := c.R
	in := c.interp("(*~testlang.Event).UnmarshalText", "(*~testlang.Event).UnmarshalTextWithRemainder")
	outs := c.run(in, "rows", fn)
	u := in.U
	where := fn.String()
	loops := map[*absint.Loop]bool{}
	for _, o := range outs {
		if o.Kind != "return" {
			r.Bad("errors", where, c.fnPos(fn), "reading ends in a %s", o.Kind)
			continue
		}
		switch errState(in, o.St.F, o.Res[1]) {
		case "?":
			r.Undecided("errors", where, c.fnPos(fn), "cannot tell whether an error is returned: %s", short(o.Res[1]))
		case "err":
			ok := false
			allEffects(o.St.Effects, func(e *absint.Effect) {
				if e.Name != "(*encoding/csv.Reader).Read" && e.Name != "(*encoding/csv.Reader).ReadAll" && e.Name != evUnmarshal || len(e.Res) == 0 {
					return
				}
				last := e.Res[len(e.Res)-1]
				if errState(in, o.St.F, last) == "err" {
					ok = true
				}
				if len(e.Res) == 2 && in.Proves(o.St.F, u.Less(u.Len(e.Res[0]), u.Int(1), true)) {
					ok = true // a row without cells
				}
			})
			for _, l := range o.St.F.List() {
				l.Walk(func(x *T) bool {
					if x.Op == absint.OLen && x.Typ != nil && in.Proves(o.St.F, u.Eq(x, u.Int(0))) && x.Args[0].Op == absint.OInit && x.Args[0].Args[0].Op == absint.OIndexAddr {
						ok = true // a row without cells
					}
					return true
				})
			}
			r.Check(ok, "errors", where, c.fnPos(fn), "reading fails although every row was read and every cell parsed: %s", short(o.Res[1]))
		case "nil":
			c.c01Success(in, o, loops)
		}
	}
	if len(loops) == 0 && len(outs) > 0 {
		r.Undecided("rows", where, c.fnPos(fn), "no loop over the rows was found")
	}
}

func (c *Ctx) c01Success(in *absint.Interp, o absint.Outcome, loops map[*absint.Loop]bool) {
	r, u := c.R, in.U
	fn := c.fn("trace", "Read")
	where, pos := fn.String(), c.fnPos(fn)
	g, err := in.GrowthOf(o.Res[0])
	if err != nil {
		if o.Res[0].IsNil() {
			// no rows at all: the file must have been at its end
			for _, e := range absint.CallsIn(o.St.Effects, "(*encoding/csv.Reader).ReadAll") {
				if in.Proves(o.St.F, u.Eq(u.Len(e.Res[0]), u.Int(0))) {
					return
				}
			}
		}
		r.Undecided("rows", where, pos, "%v", err)
		return
	}
	r.Check(g.Each == 1 && !g.Front, "rows", where+" append", g.Loop.Pos, "an iteration does not append exactly one trace")
	r.Check(in.Proves(g.Loop.Entry.F, u.Eq(in.LenOf(g.Var.Init), u.Int(0))), "rows", where+" start", g.Loop.Pos, "the list does not start empty: %s", short(g.Var.Init))
	// how success is reached
	all := absint.CallsIn(o.St.Effects, "(*encoding/csv.Reader).ReadAll")
	reads := absint.Calls(o.St.Effects, "(*encoding/csv.Reader).Read")
	switch {
	case len(all) == 1:
		rows := all[0].Res[0]
		r.Check(errState(in, o.St.F, all[0].Res[1]) == "nil", "rows", where+" end", g.Loop.Pos, "success although the file could not be read")
		r.Check(in.Proves(o.St.F, u.Eq(g.Loop.K, u.Len(rows))), "rows", where+" end", g.Loop.Pos, "success before the last row")
	case len(reads) == 1:
		e := reads[0].Res[1]
		eof := in.Global(in.C.Prog.ImportedPackage("io").Var("EOF"))
		ioEOF := in.Load(o.St.Clone(), eof, derefType(eof.Typ))
		is := o.St.F.Holds(u, u.App("errors.Is", nil, e, ioEOF)) || o.St.F.Holds(u, u.Eq(e, ioEOF))
		r.Check(is, "rows", where+" end", g.Loop.Pos, "success although the end of the file was not reached")
	default:
		r.Undecided("rows", where, pos, "success after %d row reads outside the loop", len(reads))
	}
	if loops[g.Loop] {
		return
	}
	loops[g.Loop] = true
	allEffects(o.St.Effects, func(e *absint.Effect) {
		if e.Name == "(*encoding/csv.Reader).Read" || e.Name == "(*encoding/csv.Reader).ReadAll" {
			c.c01Reader(in, e)
		}
	})
	for _, p := range g.Loop.Backs() {
		var row *T
		rs := absint.CallsIn(p.Effects, "(*encoding/csv.Reader).Read")
		if len(all) == 1 {
			row = u.Map(u.Nil(), func(*T) *T { return nil })
			rt := all[0].Res[0]
			et := elemOf(rt.Typ)
			row = in.Load(p.St.Clone(), u.IndexAddr(rt, g.Loop.K, et), et)
			r.Check(len(rs) == 0, "rows", where+" iteration", g.Loop.Pos, "rows are read twice")
		} else {
			if !r.Check(len(rs) == 1 && len(absint.Calls(p.Effects, "(*encoding/csv.Reader).Read")) == 1, "rows", where+" iteration", g.Loop.Pos, "an iteration reads %d rows", len(rs)) {
				continue
			}
			row = rs[0].Res[0]
			r.Check(errState(in, p.Facts, rs[0].Res[1]) == "nil", "errors", where+" iteration", g.Loop.Pos, "an iteration goes on although its row could not be read")
		}
		if len(g.Adds[p]) == 1 {
			c.c01Trace(in, p.St, p.Effects, p.Facts, g.Adds[p][0], row, g.Loop.Pos)
		}
	}
}

func (c *Ctx) c01Reader(in *absint.Interp, e *absint.Effect) {
	rd := e.Args[0]
	rt := derefType(rd.Typ)
	if !c.R.Check(len(e.Args) > 0 && e.St != nil, "reader", e.Fn, e.Pos, "reader not understood") {
		return
	}
	want := map[string]func(v *T) bool{
		"FieldsPerRecord":  func(v *T) bool { k, ok := v.IntVal(); return ok && k < 0 },
		"Comment":          func(v *T) bool { k, ok := v.IntVal(); return ok && k == '#' },
		"TrimLeadingSpace": func(v *T) bool { b, ok := v.BoolVal(); return ok && b },
		"Comma":            func(v *T) bool { k, ok := v.IntVal(); return !v.IsConst() || ok && k == ',' },
		"LazyQuotes":       func(v *T) bool { b, ok := v.BoolVal(); return !ok || !b },
	}
	for _, n := range []string{"FieldsPerRecord", "Comment", "TrimLeadingSpace", "Comma", "LazyQuotes"} {
		a, ft := faddr(in.U, rd, rt, n)
		v := in.Load(e.St.Clone(), a, ft)
		c.R.Check(want[n](v), "reader", "csv.Reader."+n, e.Pos, "%s is %s when rows are read", n, short(v))
	}
}

// c01Trace checks one trace against the row it comes from.
func (c *Ctx) c01Trace(in *absint.Interp, st *absint.State, effs []*absint.Effect, f *absint.Facts, v, row *T, pos string) {
	r, u := c.R, in.U
	ft := c.P.Type("internal/trace", "Forbidden")
	et := c.P.Type("internal/testlang", "Event")
	where := "trace of a row"
	n := u.Len(row)
	// cells parsed in this iteration must have parsed
	allEffects(effs, func(e *absint.Effect) {
		if e.Name != evUnmarshal {
			return
		}
		// on the path that goes on
		onTop := false
		for _, x := range effs {
			onTop = onTop || x == e
		}
		if onTop {
			r.Check(errState(in, f, e.Res[0]) == "nil", "errors", e.Fn, e.Pos, "goes on although a cell could not be parsed")
		}
	})
	for _, e := range effs {
		if e.Loop == nil {
			continue
		}
		for _, p := range e.Loop.Backs() {
			for _, x := range absint.Calls(p.Effects, evUnmarshal) {
				r.Check(errState(in, p.Facts, x.Res[0]) == "nil", "errors", x.Fn, x.Pos, "goes on to the next cell although a cell could not be parsed")
			}
		}
	}
	cell := func(t *T) *T { // index of the cell a text is
		if t.Op == absint.OInit && t.Args[0].Op == absint.OIndexAddr && t.Args[0].Args[0] == row {
			return t.Args[0].Args[1]
		}
		return nil
	}
	same := func(f *absint.Facts, a, b *T) bool { return a != nil && in.Proves(f, u.Eq(a, b)) }
	colon := func(f *absint.Facts, idx *T) absint.Tri {
		for _, l := range f.List() {
			a, val := l, absint.True
			if a.Op == absint.OApp && a.Aux == "!" {
				a, val = a.Args[0], absint.False
			}
			if a.Op == absint.OApp && a.Aux == "contains" && a.Args[1] == u.Str(":") && same(f, cell(a.Args[0]), idx) {
				return val
			}
		}
		return absint.Unknown
	}
	part := func(f *absint.Facts, t *T, which string, idx *T) bool { // TrimSpace(which(cell idx, ":"))
		if t.Op != absint.OApp || t.Aux != "strings.TrimSpace" {
			return false
		}
		t = t.Args[0]
		return t.Op == absint.OApp && t.Aux == which && t.Args[1] == u.Str(":") && same(f, cell(t.Args[0]), idx)
	}
	text := func(f *absint.Facts, t *T, idx *T) bool {
		if same(f, cell(t), idx) {
			return in.Proves(f, u.Less(u.Int(0), idx, true)) || in.Proves(f, u.Eq(idx, u.Int(0))) && colon(f, idx) == absint.False
		}
		return in.Proves(f, u.Eq(idx, u.Int(0))) && colon(f, idx) == absint.True && part(f, t, "after", idx)
	}
	event := func(rule string, k absint.Case, path []int, val *T, idx *T) {
		if val.Op != absint.OInit || !tailPath(val.Args[0], path) {
			r.Bad(rule, where, pos, "part of the event is %s", short(val))
			return
		}
		call := callByResult(effs, val.Aux)
		if call == nil || call.Name != evUnmarshal {
			r.Bad(rule, where, pos, "the event is not what was parsed: %s", short(val))
			return
		}
		t := k.In(in, call.Args[1])
		r.Check(text(k.F, t, idx), rule, where, call.Pos, "the event for cell %s is parsed from %s", short(idx), short(t))
	}
	paths, _, _ := leaves(et)
	// prefix
	pre := get(u, v, ft, "Prefix")
	if in.Proves(f, u.Eq(n, u.Int(0))) {
		return // no cells: cannot happen
	}
	r.Check(in.Proves(f, u.Eq(in.LenOf(pre), u.Add(n, u.Int(1), -1))), "prefix", where+" length", pos, "the prefix has length %s, not one less than the row", short(in.LenOf(pre)))
	for _, j := range []*T{u.Int(0), u.Param("J", intType)} {
		lits := []*T{u.Less(u.Int(0), j, false), u.Less(j, u.Add(n, u.Int(1), -1), true)}
		if !j.IsConst() {
			lits = append(lits, u.Less(u.Int(1), j, false))
		}
		g := in.With(f, lits...)
		if g == nil {
			continue
		}
		cs, err := in.Elem(st, effs, g, pre, j, et)
		if err != nil {
			r.Undecided("prefix", where, pos, "%v", err)
			continue
		}
		if len(cs) == 0 {
			r.Bad("prefix", where, pos, "no element for cell %s", short(j))
		}
		for _, k := range cs {
			for _, p := range paths {

				event("prefix", k, p, leaf(u, k.Val, et, p), j)
			}
		}
	}
	// forbidden event and name
	fb := get(u, v, ft, "Forbid")
	for _, lits := range [][]*T{{u.Eq(n, u.Int(1))}, {u.Less(u.Int(1), n, true)}} {
		g := in.With(f, lits...)
		if g == nil {
			continue
		}
		for _, p := range paths {
			cs, err := c.evCases(in, g, st, effs, leaf(u, fb, et, p))
			if err != nil {
				r.Undecided("forbid", where, pos, "%v", err)
				continue
			}
			if len(cs) == 0 {
				r.Undecided("forbid", where, pos, "no value")
			}
			for _, k := range cs {
				event("forbid", k, p, k.Val, u.Add(n, u.Int(1), -1))
			}
		}
		cs, err := valueCases(in, g, st, get(u, v, ft, "Name"))
		if err != nil {
			r.Undecided("name", where, pos, "%v", err)
		}
		for _, k := range cs {
			switch colon(k.F, u.Int(0)) {
			case absint.True:
				r.Check(part(k.F, k.Val, "before", u.Int(0)), "name", where, pos, "a tagged trace is named %s", short(k.Val))
			case absint.False:
				r.Check(k.Val == u.Str(""), "name", where, pos, "an untagged trace is named %s", short(k.Val))
			default:
				// the name may have been set in one iteration of a loop that was entered
				if k.Loop == nil && k.Val == u.Str("") && c.neverRuns(in, k.F, get(u, v, ft, "Name"), n) {
					continue
				}
				r.Undecided("name", where, pos, "cannot tell whether a trace named %s is tagged", short(k.Val))
			}
		}
	}
}

// neverRuns: the case is about a loop that has not gone round although the row has cells; it cannot arise.
func (c *Ctx) neverRuns(in *absint.Interp, f *absint.Facts, t, n *T) bool {
	return t.Op == absint.OLV && t.Loop != nil && in.With(f, in.U.Eq(t.Loop.K, n), in.U.Less(in.U.Int(0), n, true)) == nil
}

// evCases resolves a leaf of an event: a loop variable, an element of a list built by a loop, or itself.
func (c *Ctx) evCases(in *absint.Interp, f *absint.Facts, st *absint.State, effs []*absint.Effect, t *T) ([]absint.Case, error) {
	return resolveElem(in, f, st, effs, t)
}
