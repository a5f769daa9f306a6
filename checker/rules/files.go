package rules

import (
	"verif/checker/absint"
)

// genConfig is how the generators are compared with their references.
func genConfig() (absint.Config, absint.EquivOpts) {
	pure := map[string]bool{}
	for _, n := range []string{"(~gen/subgen.OnSuite).Parent", "(~gen/subgen.Subgenerator).Name", "~gen/gencommon.NewContext"} {
		pure[expandName(n)] = true
	}
	return absint.Config{Pure: pure, ReadOnly: map[string]bool{expandName("(*~gen/config/catkin.Package).Write"): true}}, absint.EquivOpts{ErrorsOnly: true, IgnoreCalls: map[string]bool{"time.Now": true}, IgnoreArgs: map[string][]int{
		"os.MkdirAll": {1},
		expandName("~gen/templating.NewGenerator"): {1},
		"io/fs.ReadDir": {0}, "(embed.FS).Open": {0}, "text/template.ParseFS": {0},
	}, IgnoreFields: map[string]bool{"templating.File.Desc": true}}
}

// generators compares parts of the generators with their references.
func (c *Ctx) generators(rule string, parts ...string) {
	tg := []string{"~gen/templating.NewGenerator", "(*~gen/templating.Generator).Generate", "~gen/templating.CreateFile", "(*~gen/config/catkin.Package).Write", "(*~gen/config/catkin.Package).Autofill"}
	for _, p := range parts {
		cfg, opt := genConfig()
		x := refs{Impl: c.spec("Impl" + p), Spec: p, Cfg: cfg, Opt: opt, NoCrash: true}
		switch p {
		case "Gen":
			x.Spec = "Gen|Gen2"
			x.Opaque = []string{"~gen/cpp.New", "~gen/catkin.New", "~gen/makefile.New"}
		case "Templated":
			x.Opaque = []string{"~gen/templating.CreateFile", "~gen/templating.Funcs"}
		case "CreateFile":
			x.Impl = c.fn("gen/templating", "CreateFile")
		case "LoadConfig":
			x.Impl = c.fn("gen/config", "Load")
		case "Process":
			x.Impl = c.method("gen/config/cpp", "Config", "Process")
		default:
			x.Opaque = tg
		}
		c.same(rule, x)
	}
}

const loopOrder = "iterating over a map visits each entry once, in some order; the reference visits them in the same one"

func init() {
	All["C24"] = Check{Spec: true, Run: func(c *Ctx) {
		c.R.Rule("generators", "for each configured variant, in order: C++, Catkin iff configured, Makefile iff configured, with that variant's configuration and directories; any failure to set up or run one fails the whole")
		c.R.Rule("directory", "the input directory is the configured one, or else that of the configuration file")
		c.R.Rule("configuration", "variants, their Makefile and Catkin settings and the directory are read from the documented elements and attributes")
		c.R.Rule("whole suite", "each generator works on every test of the suite, in its own directories")
		c.generators("generators", "Gen")
		c.generators("directory", "LoadConfig")
		c.xmlFormats("configuration", "rtcg-gen", "cpp", "catkin", "makefile")
		c.generators("whole suite", "CppDirs", "CppFiles", "Catkin", "Makefile")
	}, Explain: "gen.New/OnSuite/Generate, config.Load and the three generators are compared with their references (core/spec/suite.go.txt).", Assume: []string{loopOrder}}
	All["C14"] = Check{Spec: true, Run: func(c *Ctx) {
		c.R.Rule("order", "all directories of all generators are made before any generator starts")
		c.R.Rule("directories", "the directories made are the prelude's, the conversion code's iff there is any, and a source and include directory per test")
		c.R.Rule("files", "files are created only in those directories, or in ones made just before")
		c.generators("order", "Gen")
		c.generators("directories", "CppDirs")
		c.generators("files", "CppFiles", "Catkin", "Makefile", "Templated", "CreateFile")
	}, Explain: "The calls that make directories and create files, with their path terms and order, are compared with those of the references (core/spec/suite.go.txt), for symbolic configurations, suites and directories.", Assume: []string{loopOrder}}
}
