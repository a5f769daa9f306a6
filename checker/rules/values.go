package rules

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/checker/absint"
	"verif/checker/core"
)

// contentField finds the field of value.Value that holds its content.
func (c *Ctx) contentField() (vt types.Type, idx int, ft types.Type) {
	vt = c.P.Type("internal/testlang/value", "Value")
	if vt == nil {
		return nil, -1, nil
	}
	s, ok := vt.Underlying().(*types.Struct)
	if !ok || s.NumFields() != 1 {
		return vt, -1, nil
	}
	if _, ok := s.Field(0).Type().Underlying().(*types.Interface); !ok {
		return vt, -1, nil
	}
	return vt, 0, s.Field(0).Type()
}

// implementers lists the types of the module that implement an interface and that the module turns into it.
func (c *Ctx) implementers(it types.Type) (out []types.Type) {
	iface := it.Underlying().(*types.Interface)
	for _, p := range c.P.Packages() {
		if core.IsSpec(p.Pkg.Path()) {
			continue
		}
		sc := p.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			t := tn.Type()
			if p.Pkg.Path() == Mod+"/internal/testlang/value" && n == "Value" {
				continue // a value is not its own content
			}
			if _, ok := t.Underlying().(*types.Interface); ok {
				continue
			}
			if nt, ok := t.(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			if types.Implements(t, iface) {
				out = append(out, t)
			} else if pt := types.NewPointer(t); types.Implements(pt, iface) {
				out = append(out, pt)
			}
		}
	}
	return out
}

// variant is one kind of value: absent, or with content of one type.
type variant struct {
	Name    string
	Typ     types.Type // nil: absent
	Content *T         // the interface value
	Ptr     *T         // the pointer inside
	Elem    types.Type
}

// variants makes symbolic values of every kind; tag tells several values apart.
func (c *Ctx) variants(in *absint.Interp, st *absint.State, tag string) (vs []variant) {
	_, _, ft := c.contentField()
	if ft == nil {
		return nil
	}
	u := in.U
	vs = append(vs, variant{Name: "absent", Content: u.Nil()})
	for _, t := range c.implementers(ft) {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			x := u.Param("content"+tag, t)
			vs = append(vs, variant{Name: core.TypeName(t), Typ: t, Content: u.Iface(t, x), Ptr: x, Elem: t})
			continue
		}
		x := u.Param("content"+tag, t)
		st.F.Assume(u, u.Eq(x, u.Nil()), false)
		vs = append(vs, variant{Name: core.TypeName(t), Typ: t, Content: u.Iface(t, x), Ptr: x, Elem: p.Elem()})
	}
	return vs
}

// pointee reads what a variant holds.
func (v variant) pointee(in *absint.Interp, st *absint.State) *T {
	if v.Typ == nil {
		return in.U.Nil()
	}
	if _, ok := v.Typ.Underlying().(*types.Pointer); ok {
		return in.Load(st, v.Ptr, v.Elem)
	}
	return v.Ptr
}

var _ = ssa.Value(nil)
