package rules

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
)

// What the shapes of core/spec/family.go.txt say about channels.

// familyTypes are the C++ types of the values of the channels of each shape of suite.
var familyTypes = map[string]map[string]string{
	"Numbers": {"A": "std::string", "B": "int", "I": "std::string", "K": "unsigned int"},
	"Texts":   {"A": "std::string", "C": "std::string", "I": "std::string", "J": "std::string"},
	"Idle":    {},
	"Inputs":  {"I": "std::string"},
	"Outputs": {"A": "std::string"},
	"Doomed":  {"A": "std::string", "I": "std::string"},
	"Reals":   {"B": "double", "K": "int"},
	"Later":   {"A": "std::string", "I": "std::string", "J": "std::string"},
}

// familyOverrides are the types that the configurations give to channels.
var familyOverrides = map[string]map[string]string{"Full": {"B": "Ty1", "I": "Ty2", "K": "Ty1"}}

type inc struct {
	src    string
	system bool
}

var familyIncludes = map[string][]inc{"Full": {{"Src1", false}, {"Src2", true}}, "Else": {{"Src2", true}}}

// override is the type that overrides that of a channel.
func (m *member) override(ch string) string { return sample[familyOverrides[m.Config][ch]] }

func (m *member) overridden() bool {
	for ch := range familyTypes[m.Suite] {
		if m.override(ch) != "" {
			return true
		}
	}
	return false
}

// numericRos reports whether the shape has a numeric channel that is not overridden, which ROS drivers do not support.
func (m *member) numericRos() bool {
	for ch, t := range familyTypes[m.Suite] {
		if m.Variant == "Ros" && t != "std::string" && m.override(ch) == "" {
			return true
		}
	}
	return false
}

func upcase(s string) string {
	v, _ := applySample("strmanip.UpcaseFirst", []any{s})
	return v.(string)
}

var includeLine = regexp.MustCompile(`^\s*#\s*include\s*([<"])([^>"]*)[>"]`)

func runC27(c *Ctx) {
	r := c.R
	r.Rule("types", "each conversion function of the header has the configured type of its channel, or else the inferred one")
	r.Rule("definitions", "conversions of overridden channels are declared only, all others are defined")
	r.Rule("copied", "conversion code is copied exactly when a channel of the suite is overridden")
	r.Rule("includes", "every configured include is in the conversion header and in every driver, as system or local include")
	r.Rule("settings", "includes and channel types are read from the documented elements and attributes")
	r.Rule("overrides", "overrides are found by the names of the suite's channels, and the conversion code of the input directory is what is copied")
	c.generators("overrides", "Process", "CppFiles")
	c.xmlFormats("settings", "include", "channel")
	ms, _ := c.family()
	ms = c.usable("types", ms)
	w, err := c.newWork()
	defer func() {
		if w != nil {
			w.close()
		}
	}()
	if err != nil {
		r.Undecided("types", "clang", "", "%v", err)
		return
	}
	var mu sync.Mutex
	type job struct {
		m    *member
		h    *genFile
		text string
	}
	var jobs []job
	seen := map[string]bool{}
	for _, m := range ms {
		c.includesOf(m)
		conv := m.file("convert.cpp")
		if m.overridden() {
			r.Check(conv != nil && conv.From != "", "copied", m.Name, "", "a channel is overridden, but the user's conversion code is not copied")
		} else {
			r.Check(conv == nil, "copied", m.Name, "", "no channel of the suite is overridden, but conversion code is made")
		}
		h := m.file("convert.h")
		if h == nil {
			r.Bad("types", m.Name, "", "no conversion header is made")
			continue
		}
		if m.numericRos() {
			continue
		}
		if err := w.write(m); err != nil {
			r.Undecided("types", m.Name, "", "%v", err)
			continue
		}
		t := m.witness()
		if k := m.Variant + h.text() + t; !seen[k] {
			seen[k] = true
			jobs = append(jobs, job{m, h, t})
		}
	}
	parallel(len(jobs), func(i int) {
		j := jobs[i]
		bad := func(rule, k, pos, f string, a ...any) {
			mu.Lock()
			defer mu.Unlock()
			r.Bad(rule, k, pos, f, a...)
		}
		dir := filepath.Join(w.home(j.m), j.m.root())
		src := filepath.Join(dir, "witness.cpp")
		if err := os.WriteFile(src, []byte(j.text), 0o644); err != nil {
			bad("types", j.m.Name, "", "%v", err)
			return
		}
		flags := append(w.stubFlags(j.m), "-std=c++11", "-w", "-c", "-O0", "-ferror-limit=0", "-Isrc/convert", "-Isrc/rtcg")
		_, e, err := w.run(dir, append(flags, "-o", "witness.o", "witness.cpp")...)
		if err != nil {
			for _, d := range diags(e) {
				k, pos := w.source(j.m, d.file, d.line)
				if filepath.Base(d.file) == "witness.cpp" {
					ls := strings.Split(j.text, "\n")
					_, what, _ := strings.Cut(ls[min(d.line-1, len(ls)-1)], "// ")
					bad("types", j.h.template()+" "+what, "", "%s: %s (shape %s)", what, d.msg, j.m.Name)
					continue
				}
				bad("types", k+": "+d.msg, pos, "the conversion header does not compile (shape %s)", j.m.Name)
			}
			return
		}
		objs := []string{"witness.o"}
		for _, n := range []string{"link/user", "link/roscpp", "link/" + strings.ToLower(j.m.Variant)} {
			if n == "link/roscpp" && j.m.Variant != "Ros" || n == "link/"+strings.ToLower(j.m.Variant) && !j.m.overridden() {
				continue
			}
			o := filepath.Base(n) + ".stub.o"
			objs = append(objs, o)
			if _, e, err := w.run(dir, append(flags, "-o", o, filepath.Join(w.dir, "stubs", n+".cpp"))...); err != nil {
				bad("types", n, "", "%s", e)
				return
			}
		}
		_, e, err = w.run(dir, append([]string{"-pthread", "-o", "witness"}, objs...)...)
		mu.Lock()
		defer mu.Unlock()
		for range familyTypes[j.m.Suite] {
			r.OK("types", j.m.Name)
		}
		if err == nil {
			r.OK("definitions", j.m.Name)
			return
		}
		for _, x := range linkMsgs(e) {
			r.Bad("definitions", j.h.template()+" "+x, "", "%s (shape %s)", x, j.m.Name)
		}
		if len(linkMsgs(e)) == 0 {
			r.Bad("definitions", j.m.Name, "", "does not link: %s", e)
		}
	})
	r.Count("witness programs", len(jobs))
}

// witness is a program that compiles only if the conversions have the right types.
func (m *member) witness() string {
	var b strings.Builder
	// the header is read where the drivers include it
	if ts, mains := m.drivers(); len(ts) > 0 {
		for _, l := range strings.Split(mains[ts[0]].text(), "\n") {
			if includeLine.MatchString(l) {
				fmt.Fprintln(&b, l)
			}
		}
	}
	fmt.Fprintln(&b, "#include <string>\n#include \"convert.h\"")
	var chs []string
	for ch := range familyTypes[m.Suite] {
		chs = append(chs, ch)
	}
	sort.Strings(chs)
	var fs []string
	for _, ch := range chs {
		base := familyTypes[m.Suite][ch]
		val := base
		if m.Variant == "Ros" {
			val = "std_msgs::String"
		}
		if o := m.override(ch); o != "" {
			val = o
		}
		msg := val
		if m.Variant == "Ros" {
			msg = "const " + val + "::ConstPtr&"
		}
		n := upcase(sample[ch])
		fmt.Fprintf(&b, "%s (*w_from%s)(%s) = &from%s; // from%s takes %s and gives %s\n", base, n, msg, n, n, msg, base)
		fmt.Fprintf(&b, "%s (*w_to%s)(%s) = &to%s; // to%s takes %s and gives %s\n", val, n, base, n, n, base, val)
		fs = append(fs, "w_from"+n, "w_to"+n)
	}
	fmt.Fprintln(&b, "int main() {")
	for _, f := range fs {
		fmt.Fprintf(&b, "  if (!%s) return 1;\n", f)
	}
	fmt.Fprintln(&b, "  return 0; }")
	return b.String()
}

// includesOf checks the include lines of a member.
func (c *Ctx) includesOf(m *member) {
	r := c.R
	_, mains := m.drivers()
	fs := []*genFile{}
	if h := m.file("convert.h"); h != nil {
		fs = append(fs, h)
	}
	for _, f := range mains {
		fs = append(fs, f)
	}
	want := map[string]bool{}
	for _, x := range familyIncludes[m.Config] {
		want[sample[x.src]] = x.system
	}
	for _, f := range fs {
		found := map[string]int{}
		for _, l := range strings.Split(f.text(), "\n") {
			x := includeLine.FindStringSubmatch(l)
			if x == nil {
				continue
			}
			for _, n := range []string{"Src1", "Src2"} {
				if strings.TrimSpace(x[2]) != sample[n] {
					continue
				}
				sys, ok := want[sample[n]]
				found[sample[n]]++
				switch {
				case !ok:
					r.Bad("includes", f.template()+" "+n, "", "%s includes %s, which is not configured (shape %s)", f.Path, x[2], m.Name)
				case x[2] != sample[n]:
					r.Bad("includes", f.template()+" "+n, "", "%s includes %q instead of %q (shape %s)", f.Path, x[2], sample[n], m.Name)
				case sys != (x[1] == "<"):
					r.Bad("includes", f.template()+" "+n, "", "%s includes %s in the wrong way (shape %s)", f.Path, x[2], m.Name)
				}
			}
		}
		for n := range want {
			r.Check(found[n] > 0, "includes", f.template()+" "+n, "", "%s does not include %s (shape %s)", f.Path, n, m.Name)
		}
	}
}
