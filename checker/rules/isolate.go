package rules

import (
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/checker/absint"
	"verif/checker/core"
)

func init() {
	All["C13"] = Check{Spec: true, Run: runC13, Explain: "The paths of everything the generators make, and their order, are compared with the references (core/spec/suite.go.txt, cppgen.go.txt, ...), and every mention of a function that can change the file system is found in the packages each tool is made of: in the generator they have to lie in code followed by those comparisons (but for the removal of the output directory, C12), in the other tools there must be none.",
		Assume: []string{loopOrder, "os.Open opens for reading only; names in embed.FS have no separators", "standard streams given by the user are no input files"}}
	All["C20"] = Check{Spec: true, Run: runC20, Explain: "What is made for each test and each variant is compared with references that make it from that test or variant alone; every use of a package-level variable is found and none may be a write outside initialisation.",
		Assume: []string{slicesValues, loopOrder, typesPure}}
}

func runC13(c *Ctx) {
	r := c.R
	r.Rule("inside", "test names that lead elsewhere are rejected before anything is made, and each variant has its own directory in the output directory")
	r.Rule("paths", "everything that is made lies under the directories handed down")
	r.Rule("only there", "nothing else in the generator can change the file system")
	r.Rule("read-only tools", "nothing in the other tools can change the file system")
	c.generators("inside", "Gen")
	c.generators("paths", "CppDirs", "CppFiles", "Catkin", "Makefile", "Templated", "CreateFile")
	for _, tool := range []string{"rtcg-gen", "rtcg-make-stms", "rtcg-read-traces"} {
		rule := "read-only tools"
		if tool == "rtcg-gen" {
			rule = "only there"
		}
		pkgs := c.toolPackages(tool)
		if len(pkgs) == 0 {
			r.Undecided(rule, tool, "", "the tool was not found")
			continue
		}
		n := 0
		for _, f := range c.P.Funcs() {
			if f.Pkg == nil || !pkgs[f.Pkg.Pkg.Path()] {
				continue
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					n++
					for _, op := range i.Operands(nil) {
						g, ok := (*op).(*ssa.Function)
						if !ok || !changesFiles(g) {
							continue
						}
						name := absint.FuncName(g)
						top := f
						for top.Parent() != nil {
							top = top.Parent()
						}
						switch {
						case tool != "rtcg-gen":
							r.Bad(rule, f.String(), c.P.Pos(i.Pos()), "%s uses %s", tool, name)
						case name == "os.RemoveAll" && top.Pkg.Pkg.Name() == "main":
							r.OK(rule, f.String()+" "+name)
						case c.followed(top) && !strings.HasPrefix(top.Name(), "init"):
							r.OK(rule, f.String()+" "+name)
						default:
							r.Bad(rule, f.String(), c.P.Pos(i.Pos()), "%s is used outside the generators that were compared with their references", name)
						}
					}
				}
			}
		}
		r.Count("instructions scanned", n)
		if tool != "rtcg-gen" {
			r.OK(rule, tool)
		}
	}
}

// toolPackages lists the packages of the module that a tool is made of.
func (c *Ctx) toolPackages(tool string) map[string]bool {
	out := map[string]bool{}
	var add func(path string)
	byPath := map[string]*ssa.Package{}
	for _, p := range c.P.Packages() {
		byPath[p.Pkg.Path()] = p
	}
	add = func(path string) {
		p := byPath[path]
		if p == nil || out[path] || !c.P.InModule(path) {
			return
		}
		out[path] = true
		for _, i := range p.Pkg.Imports() {
			add(i.Path())
		}
	}
	add(Mod + "/cmd/" + tool)
	return out
}

// harmlessOS are the functions and methods of package os that leave files as they are.
var harmlessOS = map[string]bool{}

func init() {
	for _, n := range strings.Fields("Open Stat Lstat Exit ReadFile ReadDir Readlink Getenv LookupEnv Environ ExpandEnv Expand Getwd Hostname Getpid Executable UserHomeDir TempDir SameFile IsNotExist IsExist IsPermission DirFS Args Stdin Stdout Stderr IsPathSeparator Getpagesize NewSyscallError") {
		harmlessOS["os."+n] = true
	}
	for _, n := range strings.Fields("Close Read ReadAt ReadDir Readdir Readdirnames ReadFrom Seek Stat Name Write WriteString WriteAt WriteTo Sync Fd") {
		harmlessOS["(*os.File)."+n] = true
	}
}

// changesFiles reports whether a library function may change the file system (or run something that does).
func changesFiles(f *ssa.Function) bool {
	name := absint.FuncName(f)
	switch p := core.PkgPath(f); {
	case p == "os":
		return !harmlessOS[name] && (f.Object() == nil || f.Object().Exported()) && !strings.HasSuffix(name, ".init")
	case p == "os/exec", p == "syscall", p == "io/ioutil", p == "net", strings.HasPrefix(p, "net/"), p == "plugin", p == "log/syslog":
		return f.Name() != "init"
	}
	return false
}

func runC20(c *Ctx) {
	r := c.R
	r.Rule("machines", "the machine of a test is made from that test only; identifiers start afresh")
	r.Rule("suites", "suites are built entry by entry")
	r.Rule("tests", "the files of a test are made from its own machine, name and copy of the metadata")
	r.Rule("variants", "the generators of a variant are made from its own configuration and directories")
	r.Rule("types", "a type is only changed while it is made or read")
	r.Rule("no shared state", "no package-level variable changes after initialisation")
	c.build("machines")
	c.same("suites", refs{Impl: c.method("stm", "Builder", "BuildMany"), Spec: "BuildMany|BuildMany2", Cfg: pureTypes(), Opaque: []string{"(*~stm.Builder).Build"}, Opt: anyBuilder})
	c.same("suites", refs{Impl: c.method("stm", "Builder", "BuildSuite"), Spec: "BuildSuite", Cfg: pureTypes(), Opaque: []string{"(*~stm.Builder).BuildMany"}, Opt: anyBuilder})
	c.same("suites", refs{Impl: c.fn("trace", "ExpandAll"), Spec: "ExpandAll", Opaque: []string{"(~trace.Forbidden).Expand"}})
	c.generators("tests", "Catkin", "CppFiles", "CppDirs", "Makefile")
	c.generators("variants", "Gen", "Process")
	c.typeWrites("types")
	c.globals("no shared state")
}

// globals finds the uses of package-level variables that may change them.
func (c *Ctx) globals(rule string) {
	r := c.R
	n := 0
	for _, f := range c.P.Funcs() {
		if core.IsSpec(core.PkgPath(f)) || f.Name() == "init" && f.Parent() == nil && f.Synthetic != "" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg == nil || !c.P.InModule(g.Pkg.Pkg.Path()) {
						continue
					}
					n++
					if what, pos := absint.Changes(i, g, false); what != "" {
						if !pos.IsValid() {
							pos = i.Pos()
						}
						r.Bad(rule, f.String(), c.P.Pos(pos), "package-level variable %s %s", g.Name(), what)
					} else {
						r.OK(rule, f.String()+" "+g.Name())
					}
				}
			}
		}
	}
	r.Count("uses of package-level variables", n)
}
