package rules

import (
	"fmt"
	"go/types"
	"reflect"
	"slices"
	"sort"
	"strings"

	"verif/checker/absint"
	"verif/checker/core"
)

func init() {
	All["C33"] = Check{Spec: true, Run: runC33, Explain: "The types that are passed to the XML decoder and encoder are found from the call sites, and the element and attribute names that encoding/xml derives from their fields are compared with the documented formats (rtcg-gen configuration, Catkin package format 2): each is there, once, on the field of that setting, and of a kind that keeps all of its occurrences. The reader of variants is evaluated on every name; config.Load, the processing of settings, the includes and the package writer are compared with their references.",
		Assume: []string{"encoding/xml works as documented", slicesValues, loopOrder}}
}

// xmlEl is an element of a documented format.
type xmlEl struct {
	name  string
	parts []xmlPart
}

// xmlPart is an attribute (@), a child element, or the text (=) of an element.
type xmlPart struct {
	key   string // with @ for attributes; = for the text
	field string // the field that holds it, if there is one of that name
	many  bool
	opt   bool // whether it is there can be told
	kind  string
	el    *xmlEl
}

var xmlPackage = &xmlEl{"package", []xmlPart{
	{key: "@format", field: "Format", kind: "int"},
	{key: "name", field: "Name", kind: "string"},
	{key: "version", field: "Version", kind: "string"},
	{key: "description", field: "Description", kind: "string"},
	{key: "maintainer", field: "Maintainer", el: &xmlEl{"maintainer", []xmlPart{
		{key: "@email", field: "Email", kind: "string"},
		{key: "=", field: "Name", kind: "string"},
	}}},
	{key: "license", field: "License", kind: "string"},
	{key: "buildtool_depend", field: "BuildtoolDepends", kind: "string", many: true},
	{key: "depend", field: "Depends", kind: "string", many: true},
}}

var xmlCpp = &xmlEl{"cpp", []xmlPart{
	{key: "@variant", field: "Variant", kind: "enum"},
	{key: "include", field: "Includes", many: true, el: &xmlEl{"include", []xmlPart{
		{key: "@src", field: "Src", kind: "string"},
		{key: "@system", field: "IsSystem", kind: "bool"},
	}}},
	{key: "channel", field: "Channels", many: true, el: &xmlEl{"channel", []xmlPart{
		{key: "@name", field: "Name", kind: "string"},
		{key: "@type", field: "Type", kind: "string"},
	}}},
	{key: "makefile", field: "Makefile", opt: true, el: &xmlEl{"makefile", nil}},
	{key: "catkin", field: "Catkin", opt: true, el: &xmlEl{"catkin", []xmlPart{
		{key: "package", field: "Package", opt: true, el: xmlPackage},
	}}},
}}

var xmlConfig = &xmlEl{"rtcg-gen", []xmlPart{
	{key: "cpp", field: "Cpps", many: true, el: xmlCpp},
	{key: "directory", field: "Directory", kind: "string"},
}}

func runC33(c *Ctx) {
	r := c.R
	r.Rule("format", "each element and attribute of the documented format is read into, or written from, the field of that setting")
	r.Rule("variants", "each variant is read by its name")
	r.Rule("load", "the configuration that was read is the one that is used, with the directory of the file where none is given")
	r.Rule("settings", "includes, channel types and variants reach the generators as given")
	r.Rule("write", "package files hold the whole package")
	c.xmlFormats("format")
	c.variantNames("variants")
	c.generators("load", "LoadConfig")
	c.generators("settings", "Process", "Gen")
	c.same("write", refs{Impl: c.method("gen/config/catkin", "Package", "Write"), Spec: "PackageWrite", Opt: absint.EquivOpts{ErrorsOnly: true}, NoCrash: true})
}

// xmlFormats compares what the XML decoder and encoder do with the documented formats. With elements named, only those
// elements are looked at.
func (c *Ctx) xmlFormats(rule string, only ...string) {
	r := c.R
	w, rd := c.sinks(map[sink]bool{{"encoding/xml.Marshal", 0}: true, {"encoding/xml.MarshalIndent", 0}: true, {"(*encoding/xml.Encoder).Encode", 1}: true, {"(*encoding/xml.Encoder).EncodeElement", 1}: true},
		map[sink]bool{{"encoding/xml.Unmarshal", 1}: true, {"(*encoding/xml.Decoder).Decode", 1}: true, {"(*encoding/xml.Decoder).DecodeElement", 1}: true})
	x := &xmlWalk{c: c, rule: rule, only: only}
	use := func(m map[string][]jsonUse, el *xmlEl, write bool, want func(t types.Type) bool, what string) {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		n := 0
		for _, k := range ks {
			for _, u := range m[k] {
				if k == "?" {
					r.Undecided(rule, u.F.String(), u.Pos, "a value of unknown type is %s XML", what)
					continue
				}
				if !want(derefAll(u.T)) {
					continue
				}
				n++
				x.element(el, u.T, write, true, u.Pos)
			}
		}
		if n == 0 {
			r.Undecided(rule, "module", "", "no place was found where the %s is %s XML", el.name, what)
		}
	}
	is := func(pkg, name string) func(t types.Type) bool {
		t := c.P.Type("internal/"+pkg, name)
		return func(u types.Type) bool { return t != nil && types.Identical(t, u) }
	}
	use(rd, xmlConfig, false, is("gen/config", "Config"), "read from")
	if x.on("package") {
		use(w, xmlPackage, true, is("gen/config/catkin", "Package"), "written as")
	}
	r.Count("elements, attributes and texts", x.n)
}

type xmlWalk struct {
	c    *Ctx
	rule string
	only []string
	n    int
}

func (x *xmlWalk) on(el string) bool { return len(x.only) == 0 || slices.Contains(x.only, el) }

// xmlField is a field as encoding/xml sees it.
type xmlField struct {
	v   *types.Var
	key string
}

func (x *xmlWalk) custom(t types.Type, names ...string) string {
	for _, m := range []types.Type{t, types.NewPointer(t)} {
		if _, ok := t.Underlying().(*types.Interface); ok && m != t {
			continue
		}
		for _, n := range names {
			if types.NewMethodSet(m).Lookup(nil, n) != nil {
				return n
			}
		}
	}
	return ""
}

// element checks the fields of a type that holds an element.
func (x *xmlWalk) element(el *xmlEl, t types.Type, write, root bool, pos string) {
	r := x.c.R
	t = derefAll(t)
	where := core.TypeName(t)
	on := x.on(el.name)
	bad := func(p, format string, a ...any) {
		if on {
			r.Bad(x.rule, where, p, format, a...)
		}
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		r.Undecided(x.rule, where, pos, "the element <%s> is not held in a structure", el.name)
		return
	}
	if n := x.custom(t, "UnmarshalXML", "UnmarshalText", "MarshalXML", "MarshalText"); n != "" {
		r.Undecided(x.rule, where, pos, "the element <%s> has a method %s of its own", el.name, n)
		return
	}
	var fields []xmlField
	rootName := t.(interface{ String() string }).String()
	rootName = rootName[strings.LastIndex(rootName, ".")+1:]
	hasName := false
	var walk func(s *types.Struct)
	walk = func(s *types.Struct) {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			tag := reflect.StructTag(s.Tag(i)).Get("xml")
			parts := strings.Split(tag, ",")
			name, opts := parts[0], parts[1:]
			if f.Name() == "XMLName" {
				if name != "" {
					rootName, hasName = name[strings.LastIndex(name, " ")+1:], true
					if strings.Contains(name, " ") {
						bad(x.c.P.Pos(f.Pos()), "the element <%s> has to be in the name space of the tag %q", el.name, tag)
					}
				}
				continue
			}
			if tag == "-" {
				continue
			}
			if f.Embedded() && tag == "" {
				if st, ok := derefAll(f.Type()).Underlying().(*types.Struct); ok {
					walk(st)
					continue
				}
			}
			if !f.Exported() {
				continue
			}
			k := name
			if k == "" {
				k = f.Name()
			}
			text := false
			for _, o := range opts {
				switch o {
				case "attr":
					k = "@" + k
				case "chardata", "cdata", "innerxml":
					if o == "innerxml" && write {
						bad(x.c.P.Pos(f.Pos()), "the field %s is written without escapes", f.Name())
					}
					k, text = "=", true
				case "comment":
					k = "comment"
				case "any":
					k = "any " + k
				}
			}
			if strings.ContainsAny(name, " >") && !text {
				k = name
			}
			fields = append(fields, xmlField{f, k})
		}
	}
	walk(s)
	switch {
	case (write || hasName) && rootName != el.name && (root || hasName):
		bad(x.c.typePos(t, pos), "the element <%s> is called <%s>", el.name, rootName)
	default:
		if on {
			r.OK(x.rule, "<"+el.name+"> is "+where)
		}
	}
	has := map[string]bool{}
	for _, f := range fields {
		has[f.v.Name()] = true
	}
	for _, p := range el.parts {
		name := "<" + el.name + "> " + p.key
		x.n++
		var f *xmlField
		n := 0
		for i := range fields {
			if fields[i].key == p.key {
				f = &fields[i]
				n++
			}
		}
		if n != 1 {
			bad(x.c.typePos(t, pos), "%d fields hold %s of <%s>", n, xmlWhat(p.key), el.name)
			continue
		}
		at := x.c.P.Pos(f.v.Pos())
		if f.v.Name() != p.field && has[p.field] {
			bad(at, "%s of <%s> is held in %s, not %s", xmlWhat(p.key), el.name, f.v.Name(), p.field)
			continue
		}
		ft := f.v.Type()
		_, ptr := ft.Underlying().(*types.Pointer)
		ft = derefAll(ft)
		sl, isSlice := ft.Underlying().(*types.Slice)
		if p.many != isSlice {
			bad(at, "%s of <%s> is held in a %s", xmlWhat(p.key), el.name, core.TypeName(f.v.Type()))
			continue
		}
		if p.opt && !ptr {
			bad(at, "it cannot be told whether <%s> has %s", el.name, xmlWhat(p.key))
			continue
		}
		if isSlice {
			ft = derefAll(sl.Elem())
		}
		if p.el != nil {
			x.element(p.el, ft, write, false, at)
			continue
		}
		b, basic := ft.Underlying().(*types.Basic)
		m := x.custom(ft, "UnmarshalXML", "UnmarshalXMLAttr", "UnmarshalText")
		if write {
			m = x.custom(ft, "MarshalXML", "MarshalXMLAttr", "MarshalText")
		}
		if p.kind == "enum" {
			if m != "UnmarshalText" && !write {
				bad(at, "%s of <%s> is not read by its names", xmlWhat(p.key), el.name)
				continue
			}
			m = ""
		}
		switch {
		case m != "":
			r.Undecided(x.rule, where, at, "%s of <%s> has a method %s of its own", xmlWhat(p.key), el.name, m)
			continue
		case !basic, p.kind == "string" && b.Info()&types.IsString == 0, p.kind == "bool" && b.Info()&types.IsBoolean == 0, p.kind == "int" && b.Info()&types.IsInteger == 0:
			bad(at, "%s of <%s> is held in a %s", xmlWhat(p.key), el.name, core.TypeName(f.v.Type()))
			continue
		}
		if on {
			r.OK(x.rule, name)
		}
	}
	if write {
		for _, f := range fields {
			known := false
			for _, p := range el.parts {
				known = known || p.key == f.key
			}
			if !known {
				bad(x.c.P.Pos(f.v.Pos()), "<%s> is written with %s, which the format does not have", el.name, xmlWhat(f.key))
			}
		}
	}
}

func xmlWhat(key string) string {
	switch {
	case key == "=":
		return "the text"
	case strings.HasPrefix(key, "@"):
		return fmt.Sprintf("the attribute %q", key[1:])
	}
	return fmt.Sprintf("the element <%s>", key)
}

func (c *Ctx) typePos(t types.Type, pos string) string {
	if n, ok := t.(*types.Named); ok {
		return c.P.Pos(n.Obj().Pos())
	}
	return pos
}

// variantNames checks that each variant of configurations is read by its name.
func (c *Ctx) variantNames(rule string) {
	r := c.R
	cfg := c.P.Type("internal/gen/config/cpp", "Config")
	if cfg == nil {
		r.Undecided(rule, "cpp.Config", "", "type not found")
		return
	}
	ts, consts := c.enumTypes()
	s, _ := cfg.Underlying().(*types.Struct)
	var vs []*types.Named
	for i := 0; s != nil && i < s.NumFields(); i++ {
		for _, t := range ts {
			if types.Identical(s.Field(i).Type(), t) {
				vs = append(vs, t)
			}
		}
	}
	all := c.enumsOf(rule, vs, consts)
	for _, want := range []struct{ text, k string }{{"animate", "VariantAnimate"}, {"ros", "VariantRos"}} {
		n := 0
		for _, t := range vs {
			for name, k := range all[t] {
				if !strings.EqualFold(name, want.text) {
					continue
				}
				n++
				if o, ok := k.Pkg().Scope().Lookup(want.k).(*types.Const); ok && o.Val().ExactString() != k.Val().ExactString() {
					r.Bad(rule, k.Name(), c.P.Pos(k.Pos()), "%q is read as %s, not %s", name, k.Name(), want.k)
				}
			}
		}
		r.Check(n == 1, rule, "variants", "", "%d variants are called %q", n, want.text)
	}
}
