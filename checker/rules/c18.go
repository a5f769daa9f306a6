package rules

import (
	"path"
	"regexp"
	"slices"
	"strings"

	"verif/checker/absint"
)

func init() {
	All["C18"] = Check{Spec: true, Run: runC18, Explain: "The generators and templates are interpreted on shapes of suite and configuration (core/spec/family.go.txt) with symbolic names; the Makefile and CMake files that they give are parsed, variables expanded, and every source file, include directory, target and library in them is looked up among the files and directories that the same run makes. What the build file generators hand to their templates is compared with references.",
		Assume: []string{familyShapes, "make and CMake read the files as documented"}}
	All["C27"] = Check{Spec: true, Run: runC27, Explain: "The generators and templates are interpreted on shapes of suite and configuration (core/spec/family.go.txt) with symbolic names and types. Witness programs that include the conversion header are type-checked by clang: they compile only if each conversion has the configured or inferred types and is declared only, or defined. Include lines are read from the text. Which conversion code is copied, and how overrides are found, is compared with references.",
		Assume: []string{familyShapes, loopOrder, "messages of channels are passed as the values themselves in animate and as ConstPtr references in ROS"}}
}

// makeRule is a rule of a Makefile, with its variables expanded.
type makeRule struct {
	target  string
	prereqs []string
	recipe  [][]string
}

var makeVar = regexp.MustCompile(`\$\(([A-Za-z0-9_.]+)\)|\$\{([A-Za-z0-9_.]+)\}|\$([@<^$*])`)

func parseMake(text string) (rules []*makeRule, phony map[string]bool, bad []string) {
	phony = map[string]bool{}
	vars := map[string]string{"CXX": "c++", "CC": "cc", "RM": "rm -f", "MAKE": "make"}
	var expand func(s string, auto map[string]string, depth int) string
	expand = func(s string, auto map[string]string, depth int) string {
		return makeVar.ReplaceAllStringFunc(s, func(v string) string {
			n := strings.Trim(v, "$(){}")
			if v == "$$" {
				return "$"
			}
			if x, ok := auto[v]; ok {
				return x
			}
			if depth > 20 {
				return ""
			}
			return expand(vars[n], auto, depth+1)
		})
	}
	var open []*makeRule
	var raw [][]string // recipe lines
	lines := strings.Split(strings.ReplaceAll(text, "\\\n", " "), "\n")
	flush := func() {
		for _, r := range open {
			auto := map[string]string{"$@": r.target, "$^": strings.Join(r.prereqs, " "), "$<": ""}
			if len(r.prereqs) > 0 {
				auto["$<"] = r.prereqs[0]
			}
			for _, l := range raw {
				r.recipe = append(r.recipe, strings.Fields(expand(l[0], auto, 0)))
			}
			rules = append(rules, r)
		}
		open, raw = nil, nil
	}
	assign := regexp.MustCompile(`^([A-Za-z0-9_.]+)\s*(\+|\?|::?|)=\s*(.*)$`)
	for _, l := range lines {
		if strings.HasPrefix(l, "\t") {
			if t := strings.TrimLeft(strings.TrimSpace(l), "@-+"); t != "" {
				if open == nil {
					bad = append(bad, "recipe without a rule: "+l)
				}
				raw = append(raw, []string{t})
			}
			continue
		}
		if i := strings.Index(l, "#"); i >= 0 {
			l = l[:i]
		}
		if l = strings.TrimSpace(l); l == "" {
			continue
		}
		if m := assign.FindStringSubmatch(l); m != nil {
			switch m[2] {
			case "+":
				vars[m[1]] += " " + m[3]
			case "?":
				if vars[m[1]] == "" {
					vars[m[1]] = m[3]
				}
			default:
				vars[m[1]] = m[3]
			}
			continue
		}
		flush()
		ts, ps, ok := strings.Cut(l, ":")
		if !ok {
			bad = append(bad, "line is neither a rule nor a variable: "+l)
			continue
		}
		ps, inline, _ := strings.Cut(ps, ";")
		ps, _, _ = strings.Cut(ps, "|")
		pre := strings.Fields(expand(ps, nil, 0))
		for _, t := range strings.Fields(expand(ts, nil, 0)) {
			if t == ".PHONY" {
				for _, p := range pre {
					phony[p] = true
				}
				continue
			}
			if strings.HasPrefix(t, ".") && strings.ToUpper(t) == t {
				continue
			}
			open = append(open, &makeRule{target: t, prereqs: pre})
		}
		if strings.TrimSpace(inline) != "" {
			raw = append(raw, []string{inline})
		}
	}
	flush()
	return
}

// cmakeCmd is a command of a CMake file.
type cmakeCmd struct {
	name string
	args []string
}

var cmakeArg = regexp.MustCompile(`"([^"\\]|\\.)*"|[^\s()"]+`)

func parseCMake(text string) (cmds []cmakeCmd, bad []string) {
	var lines []string
	for _, l := range strings.Split(text, "\n") {
		if i := strings.Index(l, "#"); i >= 0 {
			l = l[:i]
		}
		lines = append(lines, l)
	}
	text = strings.Join(lines, "\n")
	re := regexp.MustCompile(`^\s*([A-Za-z_][A-Za-z0-9_]*)\s*\(([^()]*)\)`)
	for strings.TrimSpace(text) != "" {
		m := re.FindStringSubmatchIndex(text)
		if m == nil {
			l, _, _ := strings.Cut(strings.TrimSpace(text), "\n")
			return cmds, append(bad, "not a command: "+l)
		}
		c := cmakeCmd{name: strings.ToLower(text[m[2]:m[3]])}
		for _, a := range cmakeArg.FindAllString(text[m[4]:m[5]], -1) {
			c.args = append(c.args, strings.Trim(a, `"`))
		}
		cmds = append(cmds, c)
		text = text[m[1]:]
	}
	vars := map[string]string{}
	for i := range cmds {
		for k, a := range cmds[i].args {
			for n, v := range vars {
				a = strings.ReplaceAll(a, "${"+n+"}", v)
			}
			cmds[i].args[k] = a
		}
		switch c := cmds[i]; {
		case c.name == "project" && len(c.args) > 0:
			vars["PROJECT_NAME"] = c.args[0]
			vars["CMAKE_PROJECT_NAME"] = c.args[0]
		case c.name == "set" && len(c.args) > 0:
			vars[c.args[0]] = strings.Join(c.args[1:], " ")
		}
	}
	for i := range cmds {
		var as []string
		for _, a := range cmds[i].args {
			as = append(as, strings.Fields(a)...)
		}
		cmds[i].args = as
	}
	return cmds, bad
}

func runC18(c *Ctx) {
	r := c.R
	r.Rule("sources", "each source file named in a build file is generated, and each one that the driver needs is named")
	r.Rule("includes", "each include directory named in a build file is made, and those of all headers are named")
	r.Rule("targets", "there is one Makefile target per test, reachable from 'all'")
	r.Rule("packages", "there is one package per test, named like its CMake project")
	r.Rule("dependencies", "the user's dependencies are in both lists of the CMake file")
	r.Rule("data", "the build file generators hand every test, the package and whether there is conversion code to their templates")
	ms, _ := c.family()
	ms = c.usable("sources", ms)
	for _, m := range ms {
		c.makefileOf(m)
		c.packagesOf(m)
	}
	c.generators("data", "Catkin", "Makefile")
}

// made reports whether a directory is made.
func (m *member) made(d string) bool {
	for _, x := range m.dirs {
		if x == d || strings.HasPrefix(x, d+"/") {
			return true
		}
	}
	return false
}

func (m *member) generated(p string) bool {
	for _, f := range m.files {
		if f.Path == p {
			return true
		}
	}
	return false
}

// headers lists the directories of the generated headers.
func (m *member) headers() (ds []string) {
	for _, f := range m.files {
		if path.Ext(f.Path) == ".h" && !slices.Contains(ds, path.Dir(f.Path)) {
			ds = append(ds, path.Dir(f.Path))
		}
	}
	return
}

// needed lists the sources that a driver needs.
func (m *member) needed(main *genFile) (fs []string) {
	for _, f := range m.files {
		if path.Ext(f.Path) == ".cpp" && (path.Base(f.Path) != "main.cpp" || f == main) {
			fs = append(fs, f.Path)
		}
	}
	return
}

func (f *genFile) template() string {
	if len(f.Segs) > 0 {
		return f.Segs[0].file
	}
	return f.Path
}

func (c *Ctx) makefileOf(m *member) {
	r := c.R
	mf := m.file("Makefile")
	if mf == nil {
		r.Bad("targets", "Makefile", "", "no Makefile is generated (shape %s)", m.Name)
		return
	}
	src := mf.template()
	r.Check(mf.Path == m.root()+"/Makefile", "targets", "place of the Makefile", mf.Pos, "the Makefile is at %s", mf.Path)
	rules, phony, bad := parseMake(mf.text())
	for _, b := range bad {
		r.Bad("targets", src, "", "%s (shape %s)", b, m.Name)
	}
	at := func(p string) string { return path.Join(path.Dir(mf.Path), p) }
	byTarget := map[string]*makeRule{}
	for _, x := range rules {
		if y := byTarget[x.target]; y != nil {
			if len(x.recipe) > 0 && len(y.recipe) > 0 {
				r.Bad("targets", src+" "+x.target, "", "two rules make %s (shape %s)", x.target, m.Name)
			}
			y.prereqs = append(y.prereqs, x.prereqs...)
			y.recipe = append(y.recipe, x.recipe...)
			continue
		}
		byTarget[x.target] = x
	}
	// what 'all' builds, in order
	reach := map[string]bool{}
	mkdirs := map[string]bool{}
	var visit func(t string)
	visit = func(t string) {
		if reach[t] {
			return
		}
		reach[t] = true
		x := byTarget[t]
		if x == nil {
			if !m.generated(at(t)) && !phony[t] {
				r.Bad("sources", src+" "+t, "", "the Makefile needs %s, which is not generated and has no rule (shape %s)", t, m.Name)
			}
			return
		}
		for _, p := range x.prereqs {
			visit(p)
		}
		for _, l := range x.recipe {
			if len(l) > 1 && l[0] == "mkdir" {
				for _, d := range l[1:] {
					if !strings.HasPrefix(d, "-") {
						mkdirs[path.Clean(d)] = true
					}
				}
			}
		}
	}
	if byTarget["all"] == nil {
		r.Bad("targets", src+" all", "", "there is no target all (shape %s)", m.Name)
		return
	}
	if len(rules) > 0 && rules[0].target != "all" {
		r.Bad("targets", src+" all", "", "all is not the first target (shape %s)", m.Name)
	}
	visit("all")
	tests, mains := m.drivers()
	done := map[string]string{}
	for _, x := range rules {
		if byTarget[x.target] != x {
			continue
		}
		for _, l := range x.recipe {
			var srcs, incs []string
			out := ""
			for i := 1; i < len(l); i++ {
				switch a := l[i]; {
				case a == "-o" && i+1 < len(l):
					i++
					out = l[i]
				case a == "-I" && i+1 < len(l):
					i++
					incs = append(incs, l[i])
				case strings.HasPrefix(a, "-I"):
					incs = append(incs, a[2:])
				case strings.HasPrefix(a, "-"):
				case path.Ext(a) == ".cpp" || path.Ext(a) == ".cc":
					srcs = append(srcs, a)
				}
			}
			if len(srcs) == 0 {
				continue
			}
			test := ""
			var full []string
			for _, s := range srcs {
				p := at(s)
				r.Check(m.generated(p), "sources", src+" "+s, "", "the Makefile compiles %s, which is not generated (shape %s)", s, m.Name)
				r.Check(slices.Contains(x.prereqs, s), "sources", src+" "+x.target+" <- "+s, "", "%s does not depend on %s, which it is compiled from (shape %s)", x.target, s, m.Name)
				if slices.Contains(full, p) {
					r.Bad("sources", src+" "+s, "", "the Makefile compiles %s twice (shape %s)", s, m.Name)
				}
				full = append(full, p)
				for _, t := range tests {
					if mains[t].Path == p {
						if test != "" {
							r.Bad("targets", src+" "+x.target, "", "the target is made from several drivers (shape %s)", m.Name)
						}
						test = t
					}
				}
			}
			if test == "" {
				r.Bad("targets", src+" "+x.target, "", "a target is made from no driver (shape %s)", m.Name)
				continue
			}
			if done[test] != "" {
				r.Bad("targets", src+" "+x.target, "", "%s is also made by %s (shape %s)", test, done[test], m.Name)
			}
			done[test] = x.target
			for _, n := range m.needed(mains[test]) {
				r.Check(slices.Contains(full, n), "sources", src+" needs "+n, "", "the Makefile does not compile %s into %s (shape %s)", n, x.target, m.Name)
			}
			var dirs []string
			for _, i := range incs {
				d := at(i)
				dirs = append(dirs, d)
				r.Check(m.made(d), "includes", src+" -I"+i, "", "the Makefile names the include directory %s, which is not made (shape %s)", i, m.Name)
			}
			for _, h := range m.headers() {
				r.Check(slices.Contains(dirs, h), "includes", src+" needs "+h, "", "the Makefile does not name the include directory %s (shape %s)", h, m.Name)
			}
			r.Check(out == x.target, "targets", src+" output "+x.target, "", "the rule for %s makes %s (shape %s)", x.target, out, m.Name)
			r.Check(reach[x.target], "targets", src+" all -> "+x.target, "", "%s is not reachable from all (shape %s)", x.target, m.Name)
			od := path.Dir(path.Clean(out))
			r.Check(od == "." || mkdirs[od] || m.made(at(od)), "targets", src+" "+od, "", "nothing makes the directory of %s (shape %s)", out, m.Name)
		}
	}
	outs := map[string]string{}
	for _, t := range tests {
		if !r.Check(done[t] != "", "targets", src+" "+t, "", "there is no target for test %s (shape %s)", t, m.Name) {
			continue
		}
		if u := outs[done[t]]; u != "" {
			r.Bad("targets", src+" "+done[t], "", "tests %s and %s share a target (shape %s)", t, u, m.Name)
		}
		outs[done[t]] = t
	}
}

func (c *Ctx) packagesOf(m *member) {
	r := c.R
	tests, mains := m.drivers()
	n := map[string]int{}
	for _, f := range m.files {
		n[path.Base(f.Path)]++
	}
	r.Check(n["CMakeLists.txt"] == len(tests) && n["package.xml"] == len(tests), "packages", "number of packages", "", "%d CMakeLists.txt and %d package.xml for %d tests (shape %s)", n["CMakeLists.txt"], n["package.xml"], len(tests), m.Name)
	for _, t := range tests {
		dir := path.Dir(path.Dir(mains[t].Path))
		var cm, px *genFile
		for _, f := range m.files {
			switch f.Path {
			case dir + "/CMakeLists.txt":
				cm = f
			case dir + "/package.xml":
				px = f
			}
		}
		if cm == nil || px == nil {
			r.Bad("packages", m.root()+" "+t, "", "%s has no CMakeLists.txt or package.xml (shape %s)", dir, m.Name)
			continue
		}
		src := cm.template()
		cmds, bad := parseCMake(cm.text())
		for _, b := range bad {
			r.Bad("packages", src, "", "%s (shape %s)", b, m.Name)
		}
		at := func(p string) string {
			p = strings.TrimPrefix(p, "${CMAKE_CURRENT_SOURCE_DIR}/")
			return path.Join(dir, p)
		}
		libs := map[string][]string{}
		var exe string
		var exeSrcs, incs, linked, deps, find, pkg []string
		project := ""
		for _, x := range cmds {
			switch x.name {
			case "project":
				if len(x.args) > 0 {
					project = x.args[0]
				}
			case "add_library", "add_executable":
				var ss []string
				for _, a := range x.args[min(1, len(x.args)):] {
					if path.Ext(a) == ".cpp" || path.Ext(a) == ".cc" {
						ss = append(ss, at(a))
						r.Check(m.generated(at(a)), "sources", src+" "+a, "", "%s names %s, which is not generated (shape %s)", x.name, a, m.Name)
					}
				}
				if len(x.args) == 0 {
					continue
				}
				if x.name == "add_library" {
					if _, ok := libs[x.args[0]]; ok {
						r.Bad("packages", src+" "+x.args[0], "", "library %s is added twice (shape %s)", x.args[0], m.Name)
					}
					libs[x.args[0]] = ss
				} else {
					if exe != "" {
						r.Bad("packages", src+" "+x.args[0], "", "there are several executables (shape %s)", m.Name)
					}
					exe, exeSrcs = x.args[0], ss
				}
			case "include_directories", "target_include_directories":
				for _, a := range x.args {
					if strings.HasPrefix(a, "${catkin") || a == "PUBLIC" || a == "PRIVATE" || a == "SYSTEM" || a == exe {
						continue
					}
					incs = append(incs, at(a))
					r.Check(m.made(at(a)), "includes", src+" "+a, "", "the include directory %s is not made (shape %s)", a, m.Name)
				}
			case "target_link_libraries":
				linked = append(linked, x.args[min(1, len(x.args)):]...)
			case "add_dependencies":
				deps = append(deps, x.args[min(1, len(x.args)):]...)
			case "find_package":
				if len(x.args) > 0 && x.args[0] == "catkin" {
					if i := slices.Index(x.args, "COMPONENTS"); i >= 0 {
						find = append(find, x.args[i+1:]...)
					}
				}
			case "catkin_package":
				if i := slices.Index(x.args, "CATKIN_DEPENDS"); i >= 0 {
					pkg = append(pkg, x.args[i+1:]...)
				}
			}
		}
		all := slices.Clone(exeSrcs)
		for _, l := range append(slices.Clone(linked), deps...) {
			if strings.Contains(l, "${") || l == "PUBLIC" || l == "PRIVATE" {
				continue
			}
			ss, ok := libs[l]
			r.Check(ok, "sources", src+" "+l, "", "there is no library %s (shape %s)", l, m.Name)
			all = append(all, ss...)
		}
		r.Check(slices.Contains(exeSrcs, mains[t].Path), "sources", src+" "+mains[t].Path, "", "the executable is not made from the test's driver (shape %s)", m.Name)
		for _, x := range exeSrcs {
			if path.Base(x) == "main.cpp" && x != mains[t].Path {
				r.Bad("sources", src+" "+x, "", "the executable is made from another test's driver (shape %s)", m.Name)
			}
		}
		for _, x := range m.needed(mains[t]) {
			r.Check(slices.Contains(all, x), "sources", src+" needs "+x, "", "%s is not compiled or linked into the executable (shape %s)", x, m.Name)
		}
		for _, h := range m.headers() {
			r.Check(slices.Contains(incs, h), "includes", src+" needs "+h, "", "the include directory %s is not named (shape %s)", h, m.Name)
		}
		r.Check(project != "", "packages", src+" project", "", "there is no project (shape %s)", m.Name)
		if px.XML != nil {
			if name, err := c.xmlName(m, px); err == nil {
				r.Check(name == project, "packages", src+" project name", "", "the project is %s, but the package is %s (shape %s)", project, name, m.Name)
			} else {
				r.Undecided("packages", src+" project name", px.Pos, "%v", err)
			}
		} else {
			r.Undecided("packages", px.Path, px.Pos, "what the package file says is not known (shape %s)", m.Name)
		}
		want := []string{"roscpp", "std_msgs"}
		switch m.Config {
		case "Full":
			want = append(want, sample["Dep1"], sample["Dep2"])
		case "Else":
			want = append(want, sample["Dep1"])
		}
		for i, l := range [][]string{find, pkg} {
			name := []string{"find_package", "catkin_package"}[i]
			for _, d := range want {
				r.Check(slices.Contains(l, d), "dependencies", src+" "+name+" "+d, "", "%s does not list %s (shape %s)", name, d, m.Name)
			}
		}
	}
}

// xmlName reads the name of the package that is encoded into a file.
func (c *Ctx) xmlName(m *member, f *genFile) (string, error) {
	t := f.XML
	for t.Op == absint.OIface {
		t = t.Args[0]
	}
	v, typ := t, t.Typ
	if e, ok := pointerTo(typ); ok {
		typ = e
		a, ft := faddr(m.in.U, t, e, "Name")
		return (&renderer{m.in}).text(m.in.Load(f.St, a, ft))
	}
	return (&renderer{m.in}).text(get(m.in.U, v, typ, "Name"))
}
