package rules

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/absint"
	"verif/checker/core"
)

func init() {
	All["C10"] = Check{Spec: true, Run: runC10, Explain: "The types that are passed to the JSON encoder and decoder are found from the call sites (through functions that hand on an 'any') and every type reachable from them is checked against the rules of encoding/json: exported fields, distinct keys, no skipped field, supported kinds, and a custom reader for each custom writer, in reach of the encoder. The custom readers and writers and the functions that read and write suites are compared with references (core/spec/wire.go.txt).",
		Assume: []string{"encoding/json works as documented", "texts are valid UTF-8", "a nil and an empty list or map are the same", "the text forms are those that C09 decides"}}
}

func runC10(c *Ctx) {
	r := c.R
	r.Rule("roots", "each type that is written is also read")
	r.Rule("fields", "each field of a structure has a key of its own, and is written and read")
	r.Rule("custom", "a type with a custom writer has a custom reader of the same kind, which the encoder can reach")
	r.Rule("kinds", "only kinds of types that JSON can hold are written")
	r.Rule("codec", "the custom readers and writers keep all contents")
	r.Rule("suite", "a suite is written, and read, whole, and a failure is an error")
	c.wireTypes()
	e := absint.EquivOpts{ErrorsOnly: true}
	sm, su := c.setMethods()
	c.same("codec", refs{Impl: sm, Spec: "WireSetMarshal", Opt: e})
	c.same("codec", refs{Impl: su, Spec: "WireSetUnmarshal", Opt: e})
	c.same("codec", refs{Impl: c.method("stm/verdict", "Verdict", "MarshalJSON"), Spec: "WireVerdictMarshal|WireVerdictMarshal2", Opt: e})
	c.same("codec", refs{Impl: c.method("stm/verdict", "Verdict", "UnmarshalJSON"), Spec: "WireVerdictUnmarshal", Opt: e})
	probe := c.interpC(absint.Config{})
	for k := range c.variants(probe, probe.NewState(), "") {
		c.same("codec", refs{Impl: c.method("testlang/value", "Value", "MarshalJSON"), Spec: "WireValueMarshal", Opt: e, Setup: func(in *absint.Interp, st *absint.State, args []*T) {
			c.setContent(in, st, args[0], c.variants(in, st, "")[k])
		}})
	}
	w := e
	w.IgnoreCalls = map[string]bool{"(*encoding/json.Encoder).SetIndent": true}
	c.same("suite", refs{Impl: c.fn("serial", "ReadJSON"), Spec: "WireReadJSON|WireReadJSON2", Opt: e})
	c.same("suite", refs{Impl: c.fn("serial", "WriteJSON"), Spec: "WireWriteJSON", Opt: w})
	c.same("suite", refs{Impl: c.fn("testlang", "ReadSuite"), Spec: "WireReadTests", Opt: e})
	c.same("suite", refs{Impl: c.method("testlang", "Suite", "Write"), Spec: "WireWriteTests", Opt: w})
	c.same("suite", refs{Impl: c.fn("stm", "ReadSuite"), Spec: "WireReadStms", Opt: e, NoCrash: true})
	c.same("suite", refs{Impl: c.method("stm", "Suite", "Write"), Spec: "WireWriteStms", Opt: w})
}

// setMethods finds the JSON methods of the sets of strings.
func (c *Ctx) setMethods() (mar, unm *ssa.Function) {
	t := c.P.Type("internal/structure", "Set")
	n, ok := t.(*types.Named)
	if !ok || n.TypeParams().Len() != 1 {
		c.R.Undecided("codec", "structure.Set", "", "type not found")
		return
	}
	inst, err := types.Instantiate(nil, n, []types.Type{types.Typ[types.String]}, false)
	if err != nil {
		return
	}
	it := inst.(*types.Named)
	find := func(name string) *ssa.Function {
		sel := c.P.Prog.MethodSets.MethodSet(types.NewPointer(it)).Lookup(n.Obj().Pkg(), name)
		if sel == nil {
			c.R.Undecided("codec", "structure.Set", "", "no method %s", name)
			return nil
		}
		return c.P.Prog.MethodValue(sel)
	}
	return find("MarshalJSON"), find("UnmarshalJSON")
}

type sink struct {
	name string
	i    int
}

// jsonSinks finds the values that end up in the JSON encoder or decoder.
func (c *Ctx) jsonSinks() (write, read map[string][]jsonUse) {
	return c.sinks(map[sink]bool{{"encoding/json.Marshal", 0}: true, {"encoding/json.MarshalIndent", 0}: true, {"(*encoding/json.Encoder).Encode", 1}: true},
		map[sink]bool{{"encoding/json.Unmarshal", 1}: true, {"(*encoding/json.Decoder).Decode", 1}: true})
}

// sinks finds the values that end up in some parameters of library functions, by type.
func (c *Ctx) sinks(w, rd map[sink]bool) (write, read map[string][]jsonUse) {
	write, read = map[string][]jsonUse{}, map[string][]jsonUse{}
	fns := c.moduleFuncs()
	for changed := true; changed; {
		changed = false
		write, read = map[string][]jsonUse{}, map[string][]jsonUse{}
		for _, f := range fns {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					ci, ok := i.(ssa.CallInstruction)
					if !ok {
						continue
					}
					callee := ci.Common().StaticCallee()
					if callee == nil {
						continue
					}
					for k, a := range ci.Common().Args {
						for _, m := range []struct {
							s   map[sink]bool
							out map[string][]jsonUse
						}{{w, write}, {rd, read}} {
							if !m.s[sink{absint.FuncName(callee), k}] {
								continue
							}
							switch v := a.(type) {
							case *ssa.MakeInterface:
								t := v.X.Type()
								m.out[t.String()] = append(m.out[t.String()], jsonUse{t, f, c.P.Pos(i.Pos())})
							case *ssa.Parameter:
								for n, p := range f.Params {
									if p == v && !m.s[sink{absint.FuncName(f), n}] {
										m.s[sink{absint.FuncName(f), n}] = true
										changed = true
									}
								}
							default:
								m.out["?"] = append(m.out["?"], jsonUse{a.Type(), f, c.P.Pos(i.Pos())})
							}
						}
					}
				}
			}
		}
	}
	return
}

type jsonUse struct {
	T   types.Type
	F   *ssa.Function
	Pos string
}

// moduleFuncs lists the functions and methods of the program with bodies.
func (c *Ctx) moduleFuncs() (fs []*ssa.Function) {
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		fs = append(fs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && g.Origin() != nil {
						add(g)
					}
				}
			}
		}
	}
	for _, p := range c.P.Packages() {
		if core.IsSpec(p.Pkg.Path()) {
			continue
		}
		var ns []string
		for n := range p.Members {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			switch m := p.Members[n].(type) {
			case *ssa.Function:
				if m.TypeParams().Len() == 0 {
					add(m)
				}
			case *ssa.Type:
				t, ok := m.Type().(*types.Named)
				if !ok || t.TypeParams().Len() > 0 {
					continue
				}
				for i := 0; i < t.NumMethods(); i++ {
					add(c.P.Prog.FuncValue(t.Method(i)))
				}
			}
		}
	}
	return fs
}

func (c *Ctx) wireTypes() {
	r := c.R
	w, rd := c.jsonSinks()
	readable := map[string]bool{}
	for _, us := range rd {
		for _, u := range us {
			readable[derefAll(u.T).String()] = true
		}
	}
	var keys []string
	for k := range w {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	wt := &wire{c: c, seen: map[string]bool{}}
	n := 0
	for _, k := range keys {
		for _, u := range w[k] {
			where := u.F.String()
			if k == "?" {
				r.Undecided("roots", where, u.Pos, "a value of unknown type is written as JSON")
				continue
			}
			if !c.servant(u.F, func(f *ssa.Function) bool { return f.Name() == "MarshalJSON" }) {
				n++
				t := derefAll(u.T)
				r.Check(readable[t.String()], "roots", where, u.Pos, "%s is written but never read", core.TypeName(t))
			}
			_, ptr := u.T.Underlying().(*types.Pointer)
			wt.check(u.T, ptr, core.TypeName(u.T), u.Pos)
		}
	}
	for _, us := range rd {
		for _, u := range us {
			if _, ptr := u.T.Underlying().(*types.Pointer); !ptr {
				r.Bad("roots", u.F.String(), u.Pos, "something is read into %s, which is not a pointer", core.TypeName(u.T))
			} else {
				wt.check(u.T, true, core.TypeName(u.T), u.Pos)
			}
		}
	}
	if n < 2 {
		r.Undecided("roots", "module", "", "%d types are written as JSON; two were expected", n)
	}
	r.Count("types written as JSON", len(wt.seen))
	r.Count("call sites of the encoder and decoder", len(w)+len(rd))
}

func derefAll(t types.Type) types.Type {
	for {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return t
		}
		t = p.Elem()
	}
}

type wire struct {
	c    *Ctx
	seen map[string]bool
}

// custom finds a method by which a value of a type is written or read, as encoding/json does.
func (w *wire) custom(t types.Type, name string) (sel *types.Selection, onValue bool) {
	if sel := types.NewMethodSet(t).Lookup(nil, name); sel != nil {
		return sel, true
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return nil, false
	}
	return types.NewMethodSet(types.NewPointer(t)).Lookup(nil, name), false
}

func (w *wire) check(t types.Type, addr bool, path, pos string) {
	r := w.c.R
	if p, ok := t.Underlying().(*types.Pointer); ok {
		w.check(p.Elem(), true, path, pos)
		return
	}
	key := fmt.Sprint(t.String(), addr)
	if w.seen[key] {
		return
	}
	w.seen[key] = true
	name := core.TypeName(t)
	if n, ok := t.(*types.Named); ok {
		pos = w.c.P.Pos(n.Obj().Pos())
		if n.Obj().Pkg() != nil && !w.c.P.InModule(n.Obj().Pkg().Path()) {
			if n.Obj().Name() == "RawMessage" && n.Obj().Pkg().Path() == "encoding/json" {
				return
			}
			r.Undecided("kinds", path, pos, "the type %s is not of this module", name)
			return
		}
	}
	mj, mjv := w.custom(t, "MarshalJSON")
	mt, mtv := w.custom(t, "MarshalText")
	uj, _ := w.custom(t, "UnmarshalJSON")
	ut, _ := w.custom(t, "UnmarshalText")
	if mj != nil || mt != nil || uj != nil || ut != nil {
		writer, onValue := mj, mjv
		if writer == nil {
			writer, onValue = mt, mtv
		}
		reader := uj
		if reader == nil {
			reader = ut
		}
		ok := true
		bad := func(format string, a ...any) {
			ok = false
			r.Bad("custom", path, pos, format, a...)
		}
		switch {
		case writer == nil:
			bad("%s has a custom reader (%s) but no custom writer", name, reader.Obj().Name())
		case reader == nil:
			bad("%s has a custom writer (%s) but no custom reader", name, writer.Obj().Name())
		case !onValue && !addr && (mj == nil || mt == nil || !mtv):
			bad("%s has a writer that takes a pointer, but is written by value here, so the writer is not used", name)
		case mj != nil && uj == nil && !w.textual(t):
			bad("%s is written by MarshalJSON and read by UnmarshalText", name)
		case mj == nil && uj != nil:
			bad("%s is written by MarshalText and read by UnmarshalJSON", name)
		}
		for _, s := range []*types.Selection{writer, reader} {
			if s != nil && len(s.Index()) > 1 {
				bad("%s uses the method %s of a part of it, so the rest is not written or read", name, s.Obj().Name())
			}
			if s != nil && !jsonSignature(s) {
				bad("the method %s of %s does not have the signature that encoding/json looks for", s.Obj().Name(), name)
			}
		}
		if ok {
			r.OK("custom", path+" ("+name+")")
		}
		return
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		if x.Info()&(types.IsComplex|types.IsUntyped) != 0 || x.Kind() == types.UnsafePointer {
			r.Bad("kinds", path, pos, "JSON cannot hold a %s", name)
		} else {
			r.OK("kinds", path)
		}
	case *types.Slice:
		w.check(x.Elem(), true, path+"[]", pos)
	case *types.Array:
		w.check(x.Elem(), addr, path+"[]", pos)
	case *types.Map:
		w.mapKey(x.Key(), path, pos)
		w.check(x.Elem(), false, path+"[]", pos)
	case *types.Struct:
		w.fields(t, x, addr, path, pos)
	default:
		r.Bad("kinds", path, pos, "%s cannot be written as JSON and read again", name)
	}
}

// textual reports whether a type that is written by MarshalJSON and read by UnmarshalText is one whose writer is
// compared with a reference that gives a text or null.
func (w *wire) textual(t types.Type) bool {
	vt, _, _ := w.c.contentField()
	return vt != nil && types.Identical(t, vt)
}

func jsonSignature(s *types.Selection) bool {
	sig := s.Obj().Type().(*types.Signature)
	bytes := types.NewSlice(types.Typ[types.Byte])
	isErr := func(v *types.Var) bool { return types.Identical(v.Type(), types.Universe.Lookup("error").Type()) }
	if strings.HasPrefix(s.Obj().Name(), "Unm") {
		return sig.Params().Len() == 1 && types.Identical(sig.Params().At(0).Type(), bytes) && sig.Results().Len() == 1 && isErr(sig.Results().At(0))
	}
	return sig.Params().Len() == 0 && sig.Results().Len() == 2 && types.Identical(sig.Results().At(0).Type(), bytes) && isErr(sig.Results().At(1))
}

func (w *wire) mapKey(t types.Type, path, pos string) {
	r := w.c.R
	name := core.TypeName(t)
	b, isBasic := t.Underlying().(*types.Basic)
	mt, mtv := w.custom(t, "MarshalText")
	ut, _ := w.custom(t, "UnmarshalText")
	str := isBasic && b.Info()&types.IsString != 0
	switch {
	case str && ut != nil:
		r.Bad("custom", path, pos, "keys of type %s are written as they are but read by UnmarshalText", name)
	case str:
		r.OK("kinds", path+" keys")
	case mt != nil && mtv && ut != nil:
		r.OK("custom", path+" keys")
	case mt != nil || ut != nil:
		r.Bad("custom", path, pos, "keys of type %s are not both written and read by their text methods", name)
	case isBasic && b.Info()&types.IsInteger != 0:
		r.OK("kinds", path+" keys")
	default:
		r.Bad("kinds", path, pos, "JSON cannot hold a map with keys of type %s", name)
	}
}

func (w *wire) fields(t types.Type, s *types.Struct, addr bool, path, pos string) {
	r := w.c.R
	keys := map[string]string{}
	var walk func(s *types.Struct, at string)
	walk = func(s *types.Struct, at string) {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			p := at + "." + f.Name()
			fpos := w.c.P.Pos(f.Pos())
			tag, hasTag := reflect.StructTag(s.Tag(i)).Lookup("json")
			parts := strings.Split(tag, ",")
			key := parts[0]
			if f.Embedded() && key == "" {
				ft := derefAll(f.Type())
				if st, ok := ft.Underlying().(*types.Struct); ok {
					if _, ptr := f.Type().Underlying().(*types.Pointer); ptr && !f.Exported() {
						r.Bad("fields", p, fpos, "an embedded pointer to an unexported type cannot be read")
						continue
					}
					walk(st, p)
					continue
				}
			}
			if !f.Exported() {
				r.Bad("fields", p, fpos, "the field is not exported, so it is not written")
				continue
			}
			if tag == "-" {
				r.Bad("fields", p, fpos, "the field is left out of the JSON")
				continue
			}
			if s.Tag(i) != "" && !hasTag && strings.Contains(s.Tag(i), "json") {
				r.Bad("fields", p, fpos, "the tag %q is not well formed", s.Tag(i))
			}
			if key == "" || !validKey(key) {
				key = f.Name()
			}
			for _, o := range parts[1:] {
				switch o {
				case "omitempty", "":
				case "omitzero":
					if n, _ := w.custom(f.Type(), "IsZero"); n != nil {
						r.Undecided("fields", p, fpos, "whether the field is left out depends on its method IsZero")
					}
				case "string":
					if b, ok := derefAll(f.Type()).Underlying().(*types.Basic); !ok || b.Info()&(types.IsNumeric|types.IsBoolean|types.IsString) == 0 {
						r.Bad("fields", p, fpos, "the option 'string' does not apply to the field")
					}
				}
			}
			if o, dup := keys[key]; dup {
				r.Bad("fields", p, fpos, "the fields %s and %s have the same key %q", o, p, key)
				continue
			}
			keys[key] = p
			r.OK("fields", p+" has the key "+key)
			w.check(f.Type(), addr, p, fpos)
		}
	}
	walk(s, path)
}

func validKey(s string) bool {
	for _, c := range s {
		if strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", c) || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c > 127 {
			continue
		}
		return false
	}
	return s != ""
}
