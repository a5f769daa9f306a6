package rules

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/absint"
	"verif/checker/core"
)

// A family member is a shape of suite and configuration with symbolic names and values. The generators are
// interpreted on it with their calls to the operating system and to text/template as events; the templates are then
// expanded over the abstract memory that results (see expand.go).

type member struct {
	Name    string // suite/config/variant
	Suite   string
	Config  string
	Variant string

	in    *absint.Interp
	st    *absint.State
	names map[string]*T // symbolic names by field
	suite *T
	files []*genFile
	dirs  []string
	twice []string // files that are created twice
	order []event
	err   string
}

// genFile is a file that the generators create.
type genFile struct {
	Path  string // with samples
	PathT *T
	Name  string // of the template, or
	From  string // what is copied into it, or
	XML   *T     // what is encoded into it
	Pos   string
	Segs  []seg
	Set   *tmplSet
	Data  tval
	St    *absint.State
	Err   string
}

func (f *genFile) text() string {
	var b strings.Builder
	for _, s := range f.Segs {
		b.WriteString(s.text)
	}
	return b.String()
}

// at finds the place in the sources of a line of the text.
func (f *genFile) at(line int) string {
	n := 1
	for _, s := range f.Segs {
		k := strings.Count(s.text, "\n")
		if n+k >= line {
			l := s.line
			if line > n {
				l += line - n
			}
			return fmt.Sprintf("%s:%d", s.file, l)
		}
		n += k
	}
	return f.Path
}

// sample are the texts that stand for symbolic names in generated files.
var sample = map[string]string{
	"T1": "tAlpha", "T2": "beta_2", "T3": "Gamma",
	"S0": "stZero", "S1": "stOne", "S2": "stTwo", "S3": "St_3", "S4": "stFour", "S5": "stFive", "S6": "stSix",
	"A": "toAmber", "B": "fromB_2", "C": "ChCoral", "K": "k9Callback", "I": "inIvoryMsg", "J": "j",
	"V1": "vx\"a\\", "V2": "vy b", "V3": "vz'%s",
	"Out": "OUT", "Dir": "DIR", "Src1": "inc_one.h", "Src2": "inc/two.h", "Ty1": "usr::TyOne", "Ty2": "usr::TyTwo",
	"Dep1": "dep_one", "Dep2": "dep_two",
}

var sampleInt = map[string]int64{"N1": 1001, "N2": 1002, "N3": 1003, "M1": -1004}

func (c *Ctx) familyMember(suite, config, variant string, backwards ...bool) *member {
	m := &member{Name: suite + "/" + config + "/" + variant, Suite: suite, Config: config, Variant: variant, names: map[string]*T{}}
	bad := func(format string, a ...any) *member { m.err = fmt.Sprintf(format, a...); return m }
	cfg := absint.Config{Known: true, NoMerge: true, Pure: map[string]bool{}}
	for _, n := range []string{"UpcaseFirst", "ToLowerUnderscored"} {
		cfg.Pure[expandName("~strmanip."+n)] = true
	}
	cfg.ReadOnly = map[string]bool{"text/template.New": true}
	cfg.Backwards = len(backwards) > 0 && backwards[0]
	in := c.interpC(cfg)
	in.C.Hook = c.familyHook(in)
	in.C.Sample = (&renderer{in}).konst
	m.in = in
	u := in.U
	st := in.NewState()
	sp := func(n string) *ssa.Function {
		f := c.spec(n)
		if f == nil {
			m.err = "no reference " + n + " " + strings.Join(c.P.SpecErrs, "; ")
		}
		return f
	}
	fs, fc, fv, fr := sp("Family"+suite), sp("Family"+config), sp("Family"+variant), sp("FamilyRun")
	if m.err != "" {
		return m
	}
	nt := derefType(fs.Params[0].Type())
	p := u.Param("n", fs.Params[0].Type())
	st.F.Assume(u, u.Eq(p, u.Nil()), false)
	s := nt.Underlying().(*types.Struct)
	var strs, ints []*T
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		t := u.Param(f.Name(), f.Type())
		m.names[f.Name()] = t
		in.Store(st, u.FieldAddr(p, i, f.Type()), t, f.Type())
		if v, ok := sampleInt[f.Name()]; ok {
			st.F.Assume(u, u.Less(t, u.Int(0), true), v < 0)
			for _, o := range ints {
				st.F.Assume(u, u.Eq(t, o), false)
			}
			ints = append(ints, t)
			continue
		}
		if sample[f.Name()] == "" {
			return bad("no sample for %s", f.Name())
		}
		st.F.Assume(u, u.Eq(t, u.Str("")), false)
		for _, o := range strs {
			st.F.Assume(u, u.Eq(t, o), false)
		}
		strs = append(strs, t)
		st.F.Assume(u, u.App("path/filepath.IsLocal", types.Typ[types.Bool], t), true)
	}
	run := func(f *ssa.Function, args ...*T) *T {
		if m.err != "" {
			return u.Nil()
		}
		known := len(st.F.List())
		outs, err := in.Run(st, f, args...)
		if err != nil {
			m.err = f.Name() + ": " + err.Error()
			return u.Nil()
		}
		if len(outs) != 1 || outs[0].Kind != "return" {
			var ws []string
			for _, o := range outs {
				ws = append(ws, o.Kind+" when "+absint.FactStr(o.St.F, known))
			}
			if len(ws) > 4 {
				ws = ws[:4]
			}
			m.err = fmt.Sprintf("%s: %d ways to go: %s", f.Name(), len(outs), strings.Join(ws, "; "))
			return u.Nil()
		}
		st = outs[0].St
		if len(outs[0].Res) == 0 {
			return nil
		}
		return outs[0].Res[0]
	}
	v := run(fv)
	m.suite = run(fs, p)
	cf := run(fc, p, v)
	e := run(fr, cf, m.names["Out"], m.suite)
	m.st = st
	if m.err == "" && !e.IsNil() {
		return bad("the generators fail: %s", short(e))
	}
	return m
}

// familyHook models what is outside the module.
func (c *Ctx) familyHook(in *absint.Interp) func(name string, args []*T) ([]*T, bool) {
	u := in.U
	return func(name string, args []*T) ([]*T, bool) {
		switch name {
		case "os.SameFile":
			return []*T{u.Bool(false)}, true
		case "text/template.Must":
			return args[:1], true
		case "io/fs.ReadDir", "(embed.FS).ReadDir":
			files, _, err := c.fsOf(in, args[0])
			dir, ok := args[1].StrVal()
			if err != nil || !ok {
				return nil, false
			}
			seen := map[string]bool{}
			var ns []string
			for f := range files {
				rest, ok := strings.CutPrefix(f, strings.TrimSuffix(dir, "/")+"/")
				if dir == "." {
					rest, ok = f, true
				}
				if rest, _, _ = strings.Cut(rest, "/"); ok && !seen[rest] {
					seen[rest] = true
					ns = append(ns, rest)
				}
			}
			if len(ns) == 0 {
				return nil, false
			}
			sort.Strings(ns)
			var es []*T
			for _, n := range ns {
				es = append(es, u.App("dirent", nil, u.Str(n)))
			}
			return []*T{u.List(nil, es...), u.Nil()}, true
		case "(io/fs.DirEntry).Name":
			if args[0].Op == absint.OApp && args[0].Aux == "dirent" {
				return args[0].Args, true
			}
		case "(io/fs.DirEntry).IsDir":
			if args[0].Op == absint.OApp && args[0].Aux == "dirent" {
				return []*T{u.Bool(false)}, true
			}
		case "strings.ReplaceAll":
			s, ok := args[0].StrVal()
			old, ok2 := args[1].StrVal()
			if !ok || !ok2 || old == "" {
				return nil, false
			}
			var ts []*T
			for i, p := range strings.Split(s, old) {
				if i > 0 {
					ts = append(ts, args[2])
				}
				ts = append(ts, u.Str(p))
			}
			return []*T{u.Concat(ts...)}, true
		}
		return nil, false
	}
}

// FamilyDump prints what the generators do for a member.
func FamilyDump(repo, name string) int {
	p, err := core.Load(repo, true)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	c := &Ctx{P: p, R: core.NewReport("family")}
	ps := strings.Split(name, "/")
	m := c.familyMember(ps[0], ps[1], ps[2])
	fmt.Println(m.Name, m.err)
	if m.st == nil {
		return 1
	}
	if os.Getenv("FAMILY_EFFECTS") != "" {
		for _, e := range m.st.Effects {
			var as []string
			for _, a := range e.Args {
				as = append(as, a.String())
			}
			fmt.Println(e.Kind, e.Name, as, e.Res, e.Pos)
		}
	}
	cover := map[string]map[string]bool{}
	c.collect(m, cover)
	fmt.Println(m.err)
	for _, d := range m.dirs {
		fmt.Println("DIR", d)
	}
	for _, f := range m.files {
		fmt.Println("=== FILE", f.Path, f.From, f.Pos)
		fmt.Println(f.text())
		if f.Err != "" {
			fmt.Println("!!!", f.Err)
		}
	}
	return 0
}
