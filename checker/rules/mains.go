package rules

import (
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/absint"
	"verif/checker/core"
)

func init() {
	All["C12"] = Check{Spec: true, Run: runC12, Explain: "The main function of the generator is compared with a reference (core/spec/mains.go.txt) that removes the output directory after everything was read and accepted, before anything is generated, if asked to and unless one of the inputs or the current directory is in it; every other mention of a function that removes or moves files is a violation.",
		Assume: []string{"filepath.Abs, Rel and IsLocal say where paths lead; symbolic links are not followed"}}
	All["C23"] = Check{Spec: true, Run: runC23, Explain: "The main functions of the three tools are compared, for symbolic command lines and flags, with references (core/spec/mains.go.txt): which arguments are used for what, which file is opened, and what ends in a usage message and a failure.",
		Assume: []string{"package flag fills in flags as documented"}}
}

func mainConfig() (absint.Config, absint.EquivOpts) {
	pure := map[string]bool{}
	for _, n := range []string{"~trace.Name", "~trace.ExpandAll"} {
		pure[expandName(n)] = true
	}
	return absint.Config{Pure: pure}, absint.EquivOpts{ErrorsOnly: true, IgnoreArgs: map[string][]int{"fmt.Fprintln": {1}}}
}

func (c *Ctx) mains(rule, tool, spec string) {
	cfg, opt := mainConfig()
	c.same(rule, refs{Impl: c.mainFn(tool), Spec: spec, Cfg: cfg, Opt: opt, NoCrash: true, Opaque: []string{
		"~trace.Read", "~testlang.ReadSuite", "~stm.ReadSuite", "~validate.FullSuite", "(*~stm.Builder).BuildSuite", "(*~testlang.Suite).Write", "(*~stm.Suite).Write",
		"~gen/config.Load", "~gen.New", "(*~gen.Generator).OnSuite", "(*~gen.OnSuite).Generate"}})
}

func (c *Ctx) mainFn(tool string) *ssa.Function {
	for _, p := range c.P.Packages() {
		if p.Pkg.Path() == Mod+"/cmd/"+tool {
			return p.Func("main")
		}
	}
	return nil
}

func runC23(c *Ctx) {
	r := c.R
	r.Rule("read traces", "rtcg-read-traces reads its only argument, or standard input, and fails with its usage on others")
	r.Rule("make stms", "rtcg-make-stms reads its only argument, or standard input, and fails with its usage on others")
	r.Rule("generate", "rtcg-gen reads its configuration from the first argument and the machines from the second or standard input, takes the output directory and whether to clean it from flags, and fails with its usage on other arguments")
	c.mains("read traces", "rtcg-read-traces", "TracesMain")
	c.mains("make stms", "rtcg-make-stms", "StmsMain")
	c.mains("generate", "rtcg-gen", "GenMain|GenMain2|GenMain3|GenMain4")
}

func runC12(c *Ctx) {
	r := c.R
	r.Rule("clean", "the output directory is removed only when asked for, when neither the current directory nor an input is in it, after everything was read and accepted and before anything is generated")
	r.Rule("nothing else", "nothing else removes or moves files")
	c.mains("clean", "rtcg-gen", "GenMain|GenMain2|GenMain3|GenMain4")
	n := 0
	for _, f := range c.P.Funcs() {
		if core.IsSpec(core.PkgPath(f)) || !c.P.InModule(core.PkgPath(f)) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				n++
				for _, op := range i.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok || !removesFiles(g) {
						continue
					}
					top := f
					for top.Parent() != nil {
						top = top.Parent()
					}
					r.Check(absint.FuncName(g) == "os.RemoveAll" && c.followed(top) && top.Pkg != nil && strings.HasSuffix(top.Pkg.Pkg.Path(), "/cmd/rtcg-gen"), "nothing else", f.String(), c.P.Pos(i.Pos()), "%s is used outside the code that was compared with its reference", absint.FuncName(g))
				}
			}
		}
	}
	r.Count("instructions scanned", n)
	r.OK("nothing else", "module")
}

// removesFiles reports whether a library function may remove, empty or move files that it did not make, or run something that does.
func removesFiles(f *ssa.Function) bool {
	if !changesFiles(f) {
		return false
	}
	switch absint.FuncName(f) {
	case "os.Create", "os.MkdirAll", "os.Mkdir", "os.MkdirTemp", "os.CreateTemp", "os.WriteFile", "os.OpenFile", "(*os.File).Chmod", "os.Chmod":
		return false // C13
	}
	return true
}
