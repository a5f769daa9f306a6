package rules

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strings"
	"sync"
)

func init() {
	All["C30"] = Check{Spec: true, Run: runC30, Explain: "The generators and templates are interpreted on shapes of suite and configuration (core/spec/family.go.txt) with symbolic names and values, in both variants; the C++ that they give for sample names is type-checked by clang against declarations of the C++ library, of roscpp and of the user's headers, and its object code is linked, so that every use has a declaration before it and exactly one definition.",
		Assume: []string{familyShapes, "roscpp has the functions and callback types that core/stubs/ros declares", "the user supplies the conversions that are declared for overridden channels"}}
}

const familyShapes = "templates treat other names, values and lengths of lists alike (each branch and loop of the templates is covered by some shape; see the evidence)"

// buildMember compiles and links the drivers of a member; it returns the messages by construct.
func runC30(c *Ctx) {
	r := c.R
	r.Rule("compiles", "each driver type-checks together with the conversion header and the helper functions")
	r.Rule("links", "each function that is used has exactly one definition in the files that are compiled together")
	ms, _ := c.family()
	ms = c.usable("compiles", ms)
	w, err := c.newWork()
	defer func() {
		if w != nil {
			w.close()
		}
	}()
	if err != nil {
		r.Undecided("compiles", "clang", "", "%v", err)
		return
	}
	var mu sync.Mutex
	bads, where := map[string][]string{}, map[string]string{}
	type job struct {
		m    *member
		test string
		main *genFile
	}
	var jobs []job
	for _, m := range ms {
		if err := w.write(m); err != nil {
			r.Undecided("compiles", m.Name, "", "%v", err)
			return
		}
		ts, mains := m.drivers()
		for _, t := range ts {
			jobs = append(jobs, job{m, t, mains[t]})
		}
	}
	if len(jobs) == 0 {
		r.Undecided("compiles", "main.cpp", "", "no driver is generated")
		return
	}
	objs := map[string]string{}
	compile := func(m *member, src, obj string, flags ...string) bool {
		args := append([]string{"-c", "-O0", "-w", "-Werror=return-type", "-ferror-limit=0", "-o", obj}, flags...)
		_, e, err := w.run(filepath.Join(w.home(m), m.root()), append(args, src)...)
		if err == nil {
			return true
		}
		mu.Lock()
		defer mu.Unlock()
		ds := diags(e)
		for _, d := range ds {
			k, pos := w.source(m, d.file, d.line)
			k += ": " + aka.ReplaceAllString(d.msg, "")
			if m.Variant == "Ros" && strings.Contains(d.file, "/convert/") {
				if x := textAsNumber(d.msg); x != "" {
					k = x
				}
			}
			bads[k] = append(bads[k], m.Name)
			where[k] = pos
		}
		if len(ds) == 0 {
			r.Bad("compiles", src, "", "does not compile: %s", e)
		}
		return false
	}
	for _, n := range []string{"user", "roscpp"} {
		objs[n] = filepath.Join(w.dir, n+".o")
		if !compile(&member{Name: "stubs", Variant: "Ros"}, filepath.Join(w.dir, "stubs", "link", n+".cpp"), objs[n], append(w.stubFlags(&member{Variant: "Ros"}), "-std=c++11")...) {
			return
		}
	}
	// drivers that are compiled from the same texts are compiled once
	seen := map[string]bool{}
	n := 0
	var todo []job
	for _, j := range jobs {
		k := j.m.Variant + "\x00" + j.main.text() + "\x00"
		for _, f := range j.m.files {
			if f != j.main && (strings.Contains(f.Path, "/rtcg/") || strings.Contains(f.Path, "/convert/")) {
				k += f.Path + "\x00" + f.text() + "\x00"
			}
		}
		if !seen[k] {
			seen[k] = true
			todo = append(todo, j)
		}
	}
	parallel(len(todo), func(i int) {
		j := todo[i]
		build := "Makefile"
		if j.m.Variant == "Ros" {
			build = "CMakeLists.txt"
		}
		flags := append(w.stubFlags(j.m), "-Isrc/"+j.test+"/include", "-Isrc/rtcg", "-Isrc/convert")
		if s := j.m.std(build); s != "" {
			flags = append(flags, s)
		}
		var os []string
		ok := true
		for _, f := range j.m.files {
			if path.Ext(f.Path) != ".cpp" || path.Base(f.Path) == "main.cpp" && f != j.main {
				continue
			}
			src, _ := w.inside(j.m, f.Path)
			obj := fmt.Sprintf("%s.%d.o", src, i)
			if !compile(j.m, src, obj, flags...) {
				ok = false
			}
			os = append(os, obj)
			mu.Lock()
			n++
			mu.Unlock()
		}
		if !ok {
			return
		}
		mu.Lock()
		r.OK("compiles", j.m.Name+" "+j.test)
		mu.Unlock()
		os = append(os, objs["user"])
		if j.m.Variant == "Ros" {
			os = append(os, objs["roscpp"])
		}
		_, e, err := w.run(w.home(j.m), append([]string{"-pthread", "-o", fmt.Sprintf("%s/driver%d", w.home(j.m), i)}, os...)...)
		mu.Lock()
		defer mu.Unlock()
		if err == nil {
			r.OK("links", j.m.Name+" "+j.test)
			return
		}
		ms := linkMsgs(e)
		for _, x := range ms {
			r.Bad("links", x, "", "does not link (shape %s)", j.m.Name)
		}
		if len(ms) == 0 {
			r.Bad("links", j.m.Name, "", "does not link: %s", e)
		}
	})
	for k, shapes := range bads {
		sort.Strings(shapes)
		r.Bad("compiles", k, where[k], "does not compile (shapes %s)", strings.Join(slices.Compact(shapes), ", "))
	}
	r.Count("translation units type-checked", n)
	r.Count("drivers", len(todo))
	sort.SliceStable(r.Findings, func(i, j int) bool { return r.Findings[i].Construct < r.Findings[j].Construct })
	if os.Getenv("KEEP_WORK") != "" {
		fmt.Println("kept", w.dir)
		w.dir = ""
	}
}

var quoted = regexp.MustCompile(`'([^']*)'`)

// textAsNumber names what is wrong if a compiler message is about ROS text that is used as a number, or the other way
// around, however the conversion is written.
func textAsNumber(msg string) string {
	kinds := map[string]string{"std::string": "text", "std::__cxx11::basic_string<char>": "text", "std_msgs::String": "text", "char *": "text",
		"int": "int", "unsigned int": "unsigned int", "double": "double"}
	var k []string
	for _, q := range quoted.FindAllStringSubmatch(aka.ReplaceAllString(msg, ""), -1) {
		t := strings.TrimSpace(strings.TrimRight(strings.TrimPrefix(strings.TrimSpace(q[1]), "const "), "& "))
		if x := kinds[t]; x != "" {
			k = append(k, x)
		}
	}
	if len(k) != 2 || (k[0] == "text") == (k[1] == "text") {
		return ""
	}
	switch {
	case strings.HasPrefix(msg, "no viable conversion from"), strings.HasPrefix(msg, "no matching conversion for"):
	case strings.HasPrefix(msg, "cannot initialize"):
		k[0], k[1] = k[1], k[0]
	default:
		return ""
	}
	if k[0] == "text" {
		return "ROS text as " + k[1]
	}
	return k[0] + " as ROS text"
}

var aka = regexp.MustCompile(` \(aka [^)]*\)`)

var linkLine = regexp.MustCompile("(undefined reference to|multiple definition of) [`'](.*?)'")

func linkMsgs(out string) (ms []string) {
	seen := map[string]bool{}
	for _, m := range linkLine.FindAllStringSubmatch(out, -1) {
		if x := m[1] + " " + m[2]; !seen[x] {
			seen[x] = true
			ms = append(ms, x)
		}
	}
	return
}
