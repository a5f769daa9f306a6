package rules

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/absint"
)

func init() {
	All["C25"] = Check{Spec: true, Run: runC25, Explain: "Package.Autofill, Expand and Write, and the generation of package files, are compared with their references (core/spec) for every combination of missing and given values.", Assume: []string{slicesValues}}
	All["C26"] = Check{Spec: true, Run: runC26, Explain: "AddToAggregateSets, TransitionSets and the transition summary of the template context are compared with their references (core/spec) on symbolic machines.", Assume: []string{slicesValues}}
	All["C29"] = Check{Spec: true, Run: runC29, Explain: "The string functions are compared with their references (core/spec) on symbolic strings.", Assume: []string{slicesValues}}
}

// The forms of the references of the string functions.
const (
	upcased = "UpcaseFirst|UpcaseFirst2|UpcaseFirst3|UpcaseFirst4|UpcaseFirst5|UpcaseFirst6|UpcaseFirst7|UpcaseFirst8"
	toLower = "ToLowerUnderscored|ToLowerUnderscored2|ToLowerUnderscored3|ToLowerUnderscored4|ToLowerUnderscored5|ToLowerUnderscored6|ToLowerUnderscored7"
)

func runC29(c *Ctx) {
	c.R.Rule("upcase", "UpcaseFirst upper-cases the first character and keeps every other one")
	c.R.Rule("lower", "ToLowerUnderscored keeps every character, lower-cased, with underscores only before an upper-case letter after a lower-case one")
	c.R.Rule("names", "identifiers for callbacks, types, conversions, entry functions and enumeration members are fixed text around the name, the same for every use, different for each purpose")
	c.R.Rule("bindings", "the functions that the templates call by these names are the ones that make those names")
	c.names("names", "CallbackName", "ChannelMsgType", "ChannelValueType", "ConvertTo", "ConvertFrom", "StateEntry", "OutcomeEnum", "StateEnum", "TestEnum", "EnumField")
	c.same("upcase", refs{Impl: c.fn("strmanip", "UpcaseFirst"), Spec: upcased})
	c.same("lower", refs{Impl: c.fn("strmanip", "ToLowerUnderscored"), Spec: toLower})
	c.bindings("bindings")
}

// bound are the forms of the references of the functions that templates may call, by the names they are called by.
var bound = map[string]string{
	"cppCallbackName": "NameCallbackName", "cppChannelMsgType": "NameChannelMsgType", "cppChannelValueType": "NameChannelValueType",
	"cppConvertTo": "NameConvertTo", "cppConvertFrom": "NameConvertFrom", "cppStateEntry": "NameStateEntry",
	"cppOutcomeEnum": "NameOutcomeEnum", "cppStateEnum": "NameStateEnum", "cppTestEnum": "NameTestEnum", "cppEnumField": "NameEnumField",
	"toLowerUnderscored": toLower, "upcaseFirst": upcased,
}

// bindings compares the functions that the templates of a generated driver may call with their references, where
// they are other functions than those compared by name.
func (c *Ctx) bindings(rule string) {
	m := &member{}
	func() {
		defer func() { _ = recover() }() // what cannot be generated is reported by C30
		m = c.familyMember("Outputs", "Full", "Animate")
		if m.st != nil && m.err == "" {
			c.collect(m, map[string]map[string]bool{})
		}
	}()
	seen := map[string]*ssa.Function{}
	for _, f := range m.files {
		if f.Set == nil {
			continue
		}
		for name, v := range f.Set.funcs {
			fn := v.val.Args[0].Fn
			if bound[name] != "" && fn != nil && len(fn.FreeVars) == 0 {
				seen[name] = fn
			}
		}
	}
	var names []string
	for n := range seen {
		names = append(names, n)
	}
	sort.Strings(names)
	c.R.Count("template functions that make names", len(names))
	for _, n := range names {
		fn := seen[n]
		pkg, own := "gen/cpp", strings.TrimPrefix(bound[n], "Name")
		if !strings.HasPrefix(n, "cpp") {
			pkg, own = "strmanip", strings.Split(bound[n], "|")[0]
		}
		if fn == c.P.Func("internal/"+pkg, own) {
			c.R.OK(rule, n)
			continue
		}
		x := refs{Impl: fn, Spec: bound[n]}
		if strings.HasPrefix(n, "cpp") {
			x.Opaque, x.Cfg = c.nameOpaque()
		}
		c.same(rule, x)
	}
}

// nameOpaque is what functions that make names may call without being looked into.
func (c *Ctx) nameOpaque() ([]string, absint.Config) {
	n := expandName("~strmanip.UpcaseFirst")
	pure := map[string]bool{n: true}
	for _, m := range []string{"Type", "StringValue"} {
		pure[expandName("(~testlang/value.Valuable)."+m)] = true
	}
	return []string{"~strmanip.UpcaseFirst"}, absint.Config{Pure: pure}
}

// names compares functions that make names for the generated code with their references.
func (c *Ctx) names(rule string, fns ...string) {
	op, cfg := c.nameOpaque()
	for _, f := range fns {
		c.same(rule, refs{Impl: c.fn("gen/cpp", f), Spec: "Name" + f, Opaque: op, Cfg: cfg})
	}
}

func runC25(c *Ctx) {
	c.R.Rule("format", "each element and attribute of a package file is read into, and written from, the field of that name")
	c.R.Rule("autofill", "given values stay, missing ones get their defaults, the format is 2")
	c.R.Rule("expand", "name, description, maintainer and licence have the name of the test put in, and nothing else changes")
	c.R.Rule("per test", "the package file of a test is made from its own copy of the metadata, with that test's name put in")
	c.R.Rule("write", "the file is the XML header followed by the whole package, and writing changes nothing")
	c.generators("per test", "Catkin")
	c.xmlFormats("format", "package", "maintainer")
	c.same("write", refs{Impl: c.method("gen/config/catkin", "Package", "Write"), Spec: "PackageWrite", Opt: absint.EquivOpts{ErrorsOnly: true}, NoCrash: true})
	c.same("autofill", refs{Impl: c.method("gen/config/catkin", "Package", "Autofill"), Spec: "Autofill"})
	c.same("expand", refs{Impl: c.method("gen/config/catkin", "Package", "Expand"), Spec: "ExpandPackage"})
}

func runC26(c *Ctx) {
	c.R.Rule("aggregate", "transitions of a state are filed under their channel, in order of first use")
	c.R.Rule("machine", "all states of a machine are aggregated")
	c.R.Rule("context", "channels are split into inputs and others; flags and merged table agree with the split")
	c.same("aggregate", refs{Impl: c.fn("stm/transition", "AddToAggregateSets"), Spec: "AddToAggregateSets"})
	c.same("machine", refs{Impl: c.method("stm", "Stm", "TransitionSets"), Spec: "TransitionSets", Opaque: []string{"~stm/transition.AddToAggregateSets"}})
	c.same("context", refs{Impl: c.spec("ImplTransitions"), Spec: "Transitions|Transitions2", Opaque: []string{"(*~stm.Stm).TransitionSets"},
		Opt: absint.EquivOpts{IgnoreCalls: map[string]bool{"time.Now": true}}})
}
