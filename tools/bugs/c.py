import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'b.py')).read().split('BUGS = [')[0]) if '__file__' in globals() else exec(open('/verif/tools/bugs/b.py').read().split('BUGS = [')[0])
GEN = '''package gen

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/UoY-RoboStar/rtcg/internal/gen/config"
	cfg "github.com/UoY-RoboStar/rtcg/internal/gen/config/cpp"
	"github.com/UoY-RoboStar/rtcg/internal/gen/config/makefile"
	"github.com/UoY-RoboStar/rtcg/internal/stm"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
	"github.com/UoY-RoboStar/rtcg/internal/validate"
	"strings"
)

var _ = strings.Contains

func suiteOf(t *testing.T, s testlang.Suite) *stm.Suite {
	t.Helper()
	vs, err := validate.FullSuite(s)
	if err != nil {
		t.Fatal(err)
	}
	var b stm.Builder
	suite, err := b.BuildSuite(vs)
	if err != nil {
		t.Fatal(err)
	}
	return suite
}

func one() *testlang.Node {
	r := testlang.Root(testlang.TestPoint(testlang.Output("a", value.Int(1)), "t"))
	r.Mark("t")
	return &r
}

// make generates into dir/out with the configuration.
func generate(t *testing.T, dir string, c *cfg.Config, suite *stm.Suite) {
	t.Helper()
	g, err := New(config.Config{Cpps: []cfg.Config{*c}, Directory: dir}, filepath.Join(dir, "out"))
	if err != nil {
		t.Fatal(err)
	}
	if err := g.OnSuite(suite).Generate(); err != nil {
		t.Fatal(err)
	}
}

var _ = makefile.Makefile{}
var _ = os.Args

func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
'''
CX='internal/gen/gencommon/context.go'
BUGS = [
dict(id='c12-stale-dirs', property='C12', pkg='internal/gen',
  needs='an output directory that already holds code, with files of the user next to it, and no request to clean',
  breaks='the directories of tests are emptied before they are generated, without -clean',
  edits=[('internal/gen/gen.go', '''			if err := os.MkdirAll(dir, outputDirPerms)''', '''			// Don't let stale files end up in the build.
			if err := os.RemoveAll(dir); err != nil {
				return fmt.Errorf("couldn't renew %s directory at %q: %w", name, dir, err)
			}

			if err := os.MkdirAll(dir, outputDirPerms)''')],
  test=GEN+'''	c := cfg.New(cfg.VariantAnimate)
	s := suiteOf(t, testlang.Suite{"t": one()})
	generate(t, dir, c, s)
	mine := filepath.Join(dir, "out", "animate", "src", "t", "src", "notes.txt")
	if err := os.WriteFile(mine, []byte("x"), 0o600); err != nil {
		t.Fatal(err)
	}
	generate(t, dir, c, s)
	if _, err := os.Stat(mine); err != nil {
		t.Fatal(err)
	}
}
'''),
dict(id='c15-source-order', property='C15', pkg='internal/gen/templating',
  needs='a variant whose name sorts before "base", and a template that both define',
  breaks='sources are loaded in the order of their names, so base templates override those of the animate variant',
  edits=[('internal/gen/templating/set.go', '''	for _, src := range b.Srcs {
''', '''	srcs := append([]Source{}, b.Srcs...)
	sort.SliceStable(srcs, func(i, j int) bool { return srcs[i].Name < srcs[j].Name })

	for _, src := range srcs {
'''), ('internal/gen/templating/set.go', '''	"path/filepath"
''', '''	"path/filepath"
	"sort"
''')],
  test='''package templating

import (
	"strings"
	"testing"
	"testing/fstest"
)

func TestZZDemo(t *testing.T) {
	fs := func(name, text string) fstest.MapFS {
		return fstest.MapFS{"embed/templates/" + name + "/main.tmpl": {Data: []byte(text)}}
	}
	for _, v := range []string{"animate", "ros"} {
		b := SetBuilder{Srcs: []Source{{"base", fs("base", "base")}, {v, fs(v, v)}}}
		set, err := b.BuildFiles([]File{{Name: "main", Glob: "*.tmpl"}})
		if err != nil {
			t.Fatal(err)
		}
		var s strings.Builder
		if err := set["main"].ExecuteTemplate(&s, "main.tmpl", nil); err != nil || s.String() != v {
			t.Fatal(s.String(), err)
		}
	}
}
'''),
dict(id='c16-calls-as-inputs', property='C16', pkg='internal/gen',
  needs='a test that expects an operation call',
  breaks='calls are treated as inputs by the driver, which then never leaves the state that waits for one',
  edits=[(CX, '''		if tra.Channel.IsIn() {
			c.addInput(tra)''', '''		if !tra.Channel.IsOut() {
			c.addInput(tra)''')],
  test=drive('''
	call := testlang.NewEvent("b", channel.KindCall, v(2))
	root := tag(testlang.Root(tag(testlang.Inc(out("a", v(1)), testlang.TestPoint(call, "t")), "t")), "t")
	exe := build(t, root)
	if log, code := run(t, exe, "a\\n1\\nb\\n2"); code != 1 {
		t.Fatalf("exit %d\\n%s", code, log)
	}
''').replace('	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"\n','	"github.com/UoY-RoboStar/rtcg/internal/testlang/channel"\n	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"\n')),
dict(id='c16-merged-inputs', property='C16', pkg='internal/gen/gencommon',
  needs='a machine in which two states send different inputs, and one state has inputs on two channels or the same state map twice',
  breaks='accepting an input loses the successors of states whose inputs come first',
  edits=[(CX, '''	for s, ts := range t.States {
		c.InMerged[s] = append(c.InMerged[s], ts...)
	}''', '''	if len(c.InMerged) < len(t.States) {
		c.InMerged = make(transition.StateMap, len(t.States))
	}

	for s, ts := range t.States {
		c.InMerged[s] = append(c.InMerged[s], ts...)
	}''')],
  test='''package gencommon

import (
	"testing"

	"github.com/UoY-RoboStar/rtcg/internal/stm"
	"github.com/UoY-RoboStar/rtcg/internal/stm/transition"
	"github.com/UoY-RoboStar/rtcg/internal/stm/verdict"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/channel"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
)

func TestZZDemo(t *testing.T) {
	st := func(id, next testlang.NodeID, c channel.Channel) *stm.State {
		s := &stm.State{ID: id, Verdict: &verdict.Verdict{}}
		s.TransitionSets = transition.AddToSets(nil, c, transition.Transition{Value: value.Int(1), Next: next})
		return s
	}
	var m stm.Stm
	m.States = append(m.States, st("s0", "s1", channel.In("i")), st("s1", "s2", channel.In("j")), st("s2", "s3", channel.In("j")))
	ctx := NewContext("t", &m)
	if got := len(ctx.Transitions.InMerged); got != 3 {
		t.Fatal(got, ctx.Transitions.InMerged)
	}
}
'''),
dict(id='c17-timeout-code', property='C17', pkg='internal/gen',
  needs='a driver that is timed out',
  breaks='the exit status of a test that timed out is that of a failure',
  edits=[('internal/gen/cpp/embed/prelude/rtcg.cpp', '''  case rtcg::Status::FAIL:
    return 1;''', '''  case rtcg::Status::TIMEOUT:
  case rtcg::Status::FAIL:
    return 1;''')],
  test=drive('''
	root := tag(testlang.Root(testlang.TestPoint(out("a", v(1)), "t")), "t")
	exe := build(t, root)
	if log, code := run(t, exe, ""); code != 0 {
		t.Fatalf("exit %d\\n%s", code, log)
	}
	if log, code := run(t, exe, "a\\n1"); code != 1 {
		t.Fatalf("exit %d\\n%s", code, log)
	}
''')),
dict(id='c17-waiting', property='C17', pkg='internal/gen',
  needs='a driver that has sent an input and waits for its acknowledgement',
  breaks='the loop of the driver ends while a test waits for an acknowledgement',
  edits=[('internal/gen/cpp/embed/prelude/rtcg.cpp', """  case Status::WAIT_START:
  case Status::WAIT_IN:
  case Status::WAIT_OUT:
    return true;""", """  case Status::WAIT_START:
  case Status::WAIT_OUT:
    return true;""")],
  test=drive('''
	root := tag(testlang.Root(tag(testlang.Inc(in("i", v(1)), testlang.TestPoint(out("a", v(1)), "t")), "t")), "t")
	exe := build(t, root)
	if log, code := run(t, exe, "ready\\naccept\\na\\n1"); code != 1 {
		t.Fatal(code, log)
	}
''')),
dict(id='c18-no-conversion', property='C18', pkg='internal/gen',
  needs='a type override and a Makefile',
  breaks='the Makefile does not compile the conversion code',
  edits=[('internal/gen/makefile/context.go', 'return &Context{Tests: suite.Tests, Context: cfg}', '''ctx := cpp.Context{Includes: cfg.Includes, ChannelTypes: cfg.ChannelTypes, HasConversion: false}

	for _, typ := range cfg.ChannelTypes {
		ctx.HasConversion = typ.HasOverride()
	}

	return &Context{Tests: suite.Tests, Context: ctx}''')],
  test=GEN+'''	if err := os.MkdirAll(filepath.Join(dir, "animate", "src", "convert"), 0o755); err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(filepath.Join(dir, "animate", "src", "convert", "convert.cpp"), nil, 0o600); err != nil {
		t.Fatal(err)
	}
	next := testlang.Inc(testlang.Output("b", value.Int(1)), testlang.Inc(testlang.Output("c", value.Int(1)), testlang.Inc(testlang.Output("d", value.Int(1)), *one())))
	next.Next[0].Next[0].Next = one().Next
	for p := &next; len(p.Next) > 0; p = &p.Next[0] {
		p.Mark("t")
	}
	r := testlang.Root(next)
	r.Mark("t")
	c := cfg.New(cfg.VariantAnimate)
	c.Makefile = &makefile.Makefile{}
	c.Channels = []cfg.Channel{{Name: "b", Type: "short"}}
	for i := 0; i < 40; i++ {
		generate(t, dir, c, suiteOf(t, testlang.Suite{"t": &r}))
		b, err := os.ReadFile(filepath.Join(dir, "out", "animate", "Makefile"))
		if err != nil || !strings.Contains(string(b), "convert.cpp") {
			t.Fatal(err, string(b))
		}
	}
}
'''),
dict(id='c19-include-set', property='C19', pkg='internal/gen/config/cpp',
  needs='several includes in a configuration',
  breaks='repeated includes are dropped by way of a map, so their order differs between runs',
  edits=[('internal/gen/config/cpp/context.go', '''		Includes:      c.Includes,
''', '''		Includes:      c.uniqueIncludes(),
'''), ('internal/gen/config/cpp/context.go', '''// ChannelType defines''', '''// uniqueIncludes gets the includes without those given twice.
func (c *Config) uniqueIncludes() []Include {
	set := make(map[Include]struct{}, len(c.Includes))
	for _, inc := range c.Includes {
		set[inc] = struct{}{}
	}

	if len(set) == len(c.Includes) {
		return c.Includes
	}

	uniq := make([]Include, 0, len(set))
	for inc := range set {
		uniq = append(uniq, inc)
	}

	return uniq
}

// ChannelType defines''')],
  test='''package cpp

import (
	"reflect"
	"testing"
)

func TestZZDemo(t *testing.T) {
	c := New(VariantAnimate)
	for _, s := range []string{"a", "b", "c", "d", "e", "f", "a"} {
		c.Includes = append(c.Includes, Include{Src: s})
	}
	first := c.Process(nil)
	for i := 0; i < 50; i++ {
		if again := c.Process(nil); !reflect.DeepEqual(first, again) {
			t.Fatal(first.Includes, again.Includes)
		}
	}
}
'''),
dict(id='c20-shared-verdict', property='C20', pkg='internal/stm',
  needs='a suite with two tests, the first of which fails in some state of the same number',
  breaks='verdicts of states are shared by all machines of a suite',
  edits=[('internal/stm/state.go', '''		Verdict:        &verdict.Verdict{},
''', '''		Verdict:        verdictOf(id),
'''), ('internal/stm/state.go', '''// AddOutgoingNode''', '''var verdicts = map[testlang.NodeID]*verdict.Verdict{}

// verdictOf makes, or finds, the verdict of a state.
func verdictOf(id testlang.NodeID) *verdict.Verdict {
	if _, ok := verdicts[id]; !ok || id == "initial" {
		verdicts[id] = &verdict.Verdict{}
	}

	return verdicts[id]
}

// AddOutgoingNode''')],
  test='''package stm

import "testing"

func TestZZDemo(t *testing.T) {
	a, b := NewState("node0"), NewState("node0")
	if a.Verdict == b.Verdict {
		t.Fatal("shared")
	}
}
'''),
dict(id='c23-empty-name', property='C23', pkg='internal/cli',
  needs='an empty last argument, as from an unset shell variable in quotes',
  breaks='standard input is read although a file (of no name) was given',
  edits=[('internal/cli/cli.go', 'if path == stdinPath {', 'if path == stdinPath || path == "" {')],
  test='''package cli

import "testing"

func TestZZDemo(t *testing.T) {
	if f, err := OpenFileOrStdin(""); err == nil {
		t.Fatal(f)
	}
	if _, err := OpenFileOrStdin("-"); err != nil {
		t.Fatal(err)
	}
}
'''),
dict(id='c30-prelude-guard', property='C30', pkg='internal/gen',
  needs='a driver that reports its status through the operator of the prelude in a file of its own',
  breaks='the prelude declares the printing of outcomes and statuses in the wrong namespace, so it is never defined',
  edits=[('internal/gen/cpp/embed/prelude/rtcg.h', '''    // Converts a status into an exit code.
    int exitCode(Status s);
  }
''', '''    // Converts a status into an exit code.
    unsigned exitCode(Status s);
  }
''')],
  test=drive('''
	root := tag(testlang.Root(testlang.TestPoint(out("a", v(1)), "t")), "t")
	build(t, root)
''')),
dict(id='c29-to-names', property='C29', pkg='internal/gen',
  needs='tests with channel names that start with an upper-case letter',
  breaks='conversions of such channels are called by another name than they are declared with',
  edits=[('internal/gen/cpp/func.go', '''	return convert("from", cha)
''', '''	return convert("from", strings.TrimPrefix(cha, "to"))
''')],
  test=drive('''
	root := tag(testlang.Root(testlang.TestPoint(out("to", v(1)), "t")), "t")
	_ = root
	if got := cpp.ConvertFrom("total"); got != "fromTotal" {
		t.Fatal(got)
	}
''').replace('	"github.com/UoY-RoboStar/rtcg/internal/stm"\n','	"github.com/UoY-RoboStar/rtcg/internal/gen/cpp"\n	"github.com/UoY-RoboStar/rtcg/internal/stm"\n')),
dict(id='c32-any-input', property='C32', pkg='internal/gen/gencommon',
  needs='a machine whose first state waits for outputs and a later one sends an input',
  breaks='the start of such a driver is delayed as if its first state sent an input',
  edits=[(CX, '''	for _, ts := range machine.States[0].TransitionSets {
		if ts.Channel.IsIn() {
			return true
		}
	}

	return false''', '''	for _, state := range machine.States {
		if state.HasIn() {
			return true
		}
	}

	return false''')],
  test='''package gencommon

import (
	"testing"

	"github.com/UoY-RoboStar/rtcg/internal/stm"
	"github.com/UoY-RoboStar/rtcg/internal/stm/transition"
	"github.com/UoY-RoboStar/rtcg/internal/stm/verdict"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/channel"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
)

func TestZZDemo(t *testing.T) {
	st := func(id, next testlang.NodeID, c channel.Channel) *stm.State {
		s := &stm.State{ID: id, Verdict: &verdict.Verdict{}}
		s.TransitionSets = transition.AddToSets(nil, c, transition.Transition{Value: value.Int(1), Next: next})
		return s
	}
	var m stm.Stm
	m.States = append(m.States, st("s0", "s1", channel.Out("a")), st("s1", "s2", channel.In("j")))
	if NewContext("t", &m).Transitions.FirstStateHasIn {
		t.Fatal("delayed")
	}
}
'''),
dict(id='c33-swapped-maintainer', property='C33', pkg='internal/gen/config/catkin',
  needs='a package with a maintainer',
  breaks='the name and the email address of the maintainer change places in files',
  edits=[('internal/gen/config/catkin/package.go', '''	Email string `xml:"email,attr"` // Email is the email address of the maintainer.
	Name  string `xml:",chardata"`  // Name is the name of the maintainer.''', '''	Name  string `xml:"email,attr"` // Name is the name of the maintainer.
	Email string `xml:",chardata"`  // Email is the email address of the maintainer.''')],
  test='''package catkin

import (
	"encoding/xml"
	"testing"
)

func TestZZDemo(t *testing.T) {
	var p Package
	if err := xml.Unmarshal([]byte("<package><maintainer email='e'>n</maintainer></package>"), &p); err != nil {
		t.Fatal(err)
	}
	if p.Maintainer.Email != "e" || p.Maintainer.Name != "n" {
		t.Fatal(p)
	}
}
'''),
dict(id='c34-below', property='C34', pkg='internal/factorise',
  needs='a test whose prefix starts with the trace and goes on',
  breaks='the failures of tests that lie further down are taken as failures after the trace',
  edits=[('internal/factorise/factorise.go', 't.Prefix.Equals(after)', 'len(after) <= len(t.Prefix) && after.IsPrefixOf(t.Prefix)')],
  test='''package factorise

import (
	"testing"

	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
)

func TestZZDemo(t *testing.T) {
	a, b, c := testlang.Output("a", value.Int(1)), testlang.Output("b", value.Int(1)), testlang.Output("c", value.Int(1))
	ts := map[string]trace.Forbidden{"x": {Prefix: trace.Trace{a}, Forbid: c}, "y": {Prefix: trace.Trace{a, b}, Forbid: c}}
	if fs := Failures(ts, trace.Trace{a}); len(fs) != 1 || fs[0].Test != "x" {
		t.Fatal(fs)
	}
}
'''),
]
