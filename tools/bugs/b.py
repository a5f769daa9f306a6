def drive(body, imports=''):
    """A test in package gen that generates animate code for hand-built tests, compiles it and feeds the driver."""
    return '''package gen

import (
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"

	"github.com/UoY-RoboStar/rtcg/internal/gen/config"
	cfg "github.com/UoY-RoboStar/rtcg/internal/gen/config/cpp"
	"github.com/UoY-RoboStar/rtcg/internal/gen/config/makefile"
	"github.com/UoY-RoboStar/rtcg/internal/stm"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
	"github.com/UoY-RoboStar/rtcg/internal/validate"
)

// build makes the animate driver of the test and returns the path to the program.
func build(t *testing.T, root testlang.Node) string {
	t.Helper()
	vs, err := validate.FullSuite(testlang.Suite{"t": &root})
	if err != nil {
		t.Fatal(err)
	}
	var b stm.Builder
	suite, err := b.BuildSuite(vs)
	if err != nil {
		t.Fatal(err)
	}
	dir := t.TempDir()
	c := cfg.New(cfg.VariantAnimate)
	c.Makefile = &makefile.Makefile{}
	g, err := New(config.Config{Cpps: []cfg.Config{*c}, Directory: dir}, filepath.Join(dir, "out"))
	if err != nil {
		t.Fatal(err)
	}
	if err := g.OnSuite(suite).Generate(); err != nil {
		t.Fatal(err)
	}
	src, exe := filepath.Join(dir, "out", "animate", "src"), filepath.Join(dir, "prog")
	out, err := exec.Command("g++", "-std=c++11", "-o", exe, "-I"+src+"/t/include", "-I"+src+"/rtcg", "-I"+src+"/convert",
		src+"/t/src/main.cpp", src+"/rtcg/rtcg.cpp").CombinedOutput()
	if err != nil {
		t.Fatalf("driver doesn't build: %v\\n%s", err, out)
	}
	return exe
}

// run feeds the driver and returns its log and exit status.
func run(t *testing.T, exe, input string) (string, int) {
	t.Helper()
	cmd := exec.Command(exe)
	cmd.Stdin = strings.NewReader(input + "\\ntimeout\\n")
	var log strings.Builder
	cmd.Stderr = &log
	_ = cmd.Run()
	return log.String(), cmd.ProcessState.ExitCode()
}

var _ = os.Args
var out = testlang.Output
var in = testlang.Input
var v = value.Int

func tag(n testlang.Node, tests ...string) testlang.Node { n.Mark(tests...); return n }

func TestZZDemo(t *testing.T) {
''' + body + '}\n'
OUT='internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl'; IN='internal/gen/cpp/embed/templates/base/in_callback.cpp.tmpl'
ST='internal/gen/cpp/embed/templates/base/stm.cpp.tmpl'; SE='internal/gen/cpp/embed/templates/base/state_entry.cpp.tmpl'
BUGS = [
dict(id='c01-blank-row', property='C01', pkg='internal/trace',
  needs='a row whose only cell is blank (a quoted empty cell, or a line of spaces)',
  breaks='such a row is dropped silently although it holds a cell that cannot be parsed',
  edits=[('internal/trace/read.go', '''		trace, err := parseRow(row)
''', '''		if isBlank(row) {
			continue
		}

		trace, err := parseRow(row)
'''), ('internal/trace/read.go', '''func newReader(''', '''// isBlank checks whether row has nothing in it.
func isBlank(row []string) bool {
	return strings.TrimSpace(strings.Join(row, "")) == ""
}

func newReader(''')],
  test='''package trace

import (
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	for _, in := range []string{"a.out.1\\n\\"\\"\\nb.out.2\\n", "a.out.1,b.in\\n,\\n"} {
		if got, err := Read(strings.NewReader(in)); err == nil {
			t.Fatalf("bad row accepted in %q: %v", in, got)
		}
	}
	got, err := Read(strings.NewReader("a.out.1\\n\\n# c\\nb.out.2\\n"))
	if err != nil || len(got) != 2 {
		t.Fatal(got, err)
	}
}
'''),
dict(id='c03-stutter', property='C03', pkg='internal/trace',
  needs='a trace in which the last prefix event equals the forbidden event',
  breaks='the inconclusive node of a prefix event that equals the forbidden one is left out',
  edits=[('internal/trace/expand.go', '''		node = testlang.Inc(t.Prefix[i], node)
''', '''		if node.Outcome == testlang.OutcomePass && node.Event.Equals(t.Prefix[i]) {
			continue
		}

		node = testlang.Inc(t.Prefix[i], node)
''')],
  test='''package trace

import (
	"testing"

	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
)

func TestZZDemo(t *testing.T) {
	a := testlang.Output("a", value.Int(1))
	got, err := Collapse(New(a, a).Forbid(a).Expand("x"))
	if err != nil || len(got.Prefix) != 2 {
		t.Fatal(got, err)
	}
}
'''),
dict(id='c06-same-value', property='C06', pkg='internal/stm/transition',
  needs='a node with two successors on the same channel with the same value',
  breaks='the second of two transitions with equal values is not recorded, leaving its state unreachable',
  edits=[('internal/stm/transition/set.go', '''			ts.Transitions = append(ts.Transitions, transition)

			return sets
''', '''			if !ts.covers(transition) {
				ts.Transitions = append(ts.Transitions, transition)
			}

			return sets
'''), ('internal/stm/transition/set.go', '''func (t Set) String() string {
''', '''// covers checks whether t already has a transition for the value of other.
func (t *Set) covers(other Transition) bool {
	for i := range t.Transitions {
		if t.Transitions[i].Value.Equals(other.Value) {
			return true
		}
	}

	return false
}

func (t Set) String() string {
''')],
  test='''package transition

import (
	"testing"

	"github.com/UoY-RoboStar/rtcg/internal/testlang/channel"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
)

func TestZZDemo(t *testing.T) {
	var sets []Set
	for _, n := range []string{"x", "y"} {
		tr := Transition{Value: value.Int(1)}
		if n == "x" {
			tr.Next = "x"
		} else {
			tr.Next = "y"
		}
		sets = AddToSets(sets, channel.Out("a"), tr)
	}
	if len(sets) != 1 || len(sets[0].Transitions) != 2 {
		t.Fatal(sets)
	}
}
'''),
dict(id='c07-fail-tags', property='C07', pkg='internal/stm',
  needs='a failing node tagged with a test that no other node is tagged with',
  breaks='tests tagged only on failing nodes are missing from the test set of the machine',
  edits=[('internal/stm/builder.go', '''		b.ensureNodeID(np)
		b.stm.Tests.Add(np.Tests...)
		result.AddOutgoingNode(np)
''', '''		result.AddVerdicts(np)

		if np.Outcome == testlang.OutcomeFail {
			continue
		}

		b.ensureNodeID(np)
		b.stm.Tests.Add(np.Tests...)
		result.AddOutgoingNode(np)
'''), ('internal/stm/state.go', '''// addVerdictsFromNode adds''', '''// AddVerdicts records the verdicts of node in s.
func (s *State) AddVerdicts(node *testlang.Node) {
	s.addVerdictsFromNode(node)
}

// addVerdictsFromNode adds''')],
  test='''package stm

import (
	"testing"

	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
	"github.com/UoY-RoboStar/rtcg/internal/validate"
)

func TestZZDemo(t *testing.T) {
	f := testlang.Fail()
	f.Mark("late")
	p := testlang.Pass(testlang.Output("a", value.Int(1)), f)
	p.Mark("early")
	r := testlang.Root(p)
	r.Mark("early")
	vt, err := validate.Full(&r)
	if err != nil {
		t.Fatal(err)
	}
	var b Builder
	m, err := b.Build(vt)
	if err != nil {
		t.Fatal(err)
	}
	if got := m.Tests.Values(); len(got) != 2 {
		t.Fatal(got)
	}
}
'''),
dict(id='c08-empty-across', property='C08', pkg='internal/stm',
  needs='two tests of which one uses a channel without a value and the other uses it with one',
  breaks='empty types are skipped when types are combined over the suite, so the inconsistency is accepted',
  edits=[('internal/stm/builder.go', '''		for cName, cType := range test.Types {
''', '''		for cName, cType := range test.Types {
			if _, ok := tmap[cName]; ok && cType.IsEmpty() {
				continue // adds no information
			}

			if old := tmap[cName]; old != nil && old.IsEmpty() {
				tmap[cName] = nil
			}

''')],
  test='''package stm

import (
	"testing"

	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
	"github.com/UoY-RoboStar/rtcg/internal/validate"
)

func TestZZDemo(t *testing.T) {
	s := testlang.Suite{}
	for n, v := range map[string]value.Value{"x": value.None(), "y": value.Int(1)} {
		r := testlang.Root(testlang.TestPoint(testlang.Output("a", v), n))
		r.Mark(n)
		s[n] = &r
	}
	vs, err := validate.FullSuite(s)
	if err != nil {
		t.Fatal(err)
	}
	var b Builder
	if got, err := b.BuildSuite(vs); err == nil {
		t.Fatalf("inconsistent channel accepted: %v", got.Types)
	}
}
'''),
dict(id='c09-real-domain', property='C09', pkg='internal/testlang/rstype',
  needs='a state machine file with a channel of real type',
  breaks='the text of the real type is read back as the integer type',
  edits=[('internal/testlang/rstype/rstype.go', '''		t.arithmosDomain = ArithmosDomainInt
	case "real":
		t.kind = KindArithmos
		t.arithmosDomain = ArithmosDomainReal
''', '''		t.arithmosDomain = ArithmosDomainInt
	case "real":
		t.kind = KindArithmos
		t.arithmosDomain = MaxDomain(ArithmosDomainNat, ArithmosDomainInt)
''')],
  test='''package rstype

import "testing"

func TestZZDemo(t *testing.T) {
	for _, d := range []ArithmosDomain{ArithmosDomainNat, ArithmosDomainInt, ArithmosDomainReal} {
		bs, err := Arithmos(d).MarshalText()
		if err != nil {
			t.Fatal(err)
		}
		var got RsType
		if err := got.UnmarshalText(bs); err != nil || got != *Arithmos(d) {
			t.Fatal(d, got, err)
		}
	}
}
'''),
dict(id='c10-verdict-key', property='C10', pkg='internal/stm',
  needs='a state machine suite that is written and read back',
  breaks='the verdicts and the transition sets of a state share a key, so encoding/json drops both silently',
  edits=[('internal/stm/state.go', '''`json:"verdicts,omitempty"`''', '''`json:"transitionSets,omitempty"`''')],
  test='''package stm

import (
	"bytes"
	"testing"

	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
	"github.com/UoY-RoboStar/rtcg/internal/validate"
)

func TestZZDemo(t *testing.T) {
	r := testlang.Root(testlang.TestPoint(testlang.Output("a", value.Int(1)), "x"))
	r.Mark("x")
	vs, err := validate.FullSuite(testlang.Suite{"x": &r})
	if err != nil {
		t.Fatal(err)
	}
	var b Builder
	s, err := b.BuildSuite(vs)
	if err != nil {
		t.Fatal(err)
	}
	var buf bytes.Buffer
	if err := s.Write(&buf); err != nil {
		t.Fatal(err)
	}
	got, err := ReadSuite(&buf)
	if err != nil {
		t.Fatal(err)
	}
	for i, st := range got.Tests["x"].States {
		if len(st.TransitionSets) != len(s.Tests["x"].States[i].TransitionSets) || st.Verdict == nil {
			t.Fatal(st)
		}
	}
}
'''),
dict(id='c11-last-error', property='C11', pkg='internal/gen',
  needs='a failing sub-generator that is followed by one that succeeds',
  breaks='the remaining generators run after a failure and the last result overwrites the failure',
  edits=[('internal/gen/gen.go', '''	for _, subg := range o.subgens {
		name := subg.Parent().Name()

		if err := subg.Generate(); err != nil {
			return fmt.Errorf("generator %s failed: %w", name, err)
		}
	}

	return nil
''', '''	var err error

	for _, subg := range o.subgens {
		if err = subg.Generate(); err != nil {
			err = fmt.Errorf("generator %s failed: %w", subg.Parent().Name(), err)
		}
	}

	return err
''')],
  test='''package gen

import (
	"errors"
	"testing"

	"github.com/UoY-RoboStar/rtcg/internal/gen/subgen"
	"github.com/UoY-RoboStar/rtcg/internal/stm"
)

type fake struct{ err error }

func (f fake) Name() string                          { return "fake" }
func (f fake) OnSuite(suite *stm.Suite) subgen.OnSuite { return f }
func (f fake) Parent() subgen.Subgenerator           { return f }
func (f fake) Dirs() []string                        { return nil }
func (f fake) Generate() error                       { return f.err }

func TestZZDemo(t *testing.T) {
	g := &Generator{subgens: []subgen.Subgenerator{fake{errors.New("no")}, fake{}}}
	if err := g.OnSuite(&stm.Suite{}).Generate(); err == nil {
		t.Fatal("failure forgotten")
	}
}
'''),
dict(id='c13-relative', property='C13', pkg='internal/gen',
  needs='a configuration that is not in the current directory, with a relative output directory',
  breaks='output is written relative to the directory of the configuration instead of to the requested directory',
  edits=[('internal/gen/gen.go', '''	subs, err := initCpp(cfg.Cpps, dirs)
''', '''	if !filepath.IsAbs(outputDir) {
		dirs.Output = filepath.Join(cfg.Directory, outputDir)
	}

	subs, err := initCpp(cfg.Cpps, dirs)
''')],
  test='''package gen

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/UoY-RoboStar/rtcg/internal/gen/config"
	cfg "github.com/UoY-RoboStar/rtcg/internal/gen/config/cpp"
	"github.com/UoY-RoboStar/rtcg/internal/stm"
)

func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	if err := os.Chdir(dir); err != nil {
		t.Fatal(err)
	}
	g, err := New(config.Config{Cpps: []cfg.Config{*cfg.New(cfg.VariantAnimate)}, Directory: "in"}, "out")
	if err != nil {
		t.Fatal(err)
	}
	if err := g.OnSuite(&stm.Suite{}).Generate(); err != nil {
		t.Fatal(err)
	}
	if _, err := os.Stat(filepath.Join(dir, "in")); err == nil {
		t.Fatal("wrote into the input directory")
	}
	if _, err := os.Stat(filepath.Join(dir, "out", "animate", "src", "convert", "convert.h")); err != nil {
		t.Fatal(err)
	}
}
'''),
dict(id='c14-interleaved', property='C14', pkg='internal/gen',
  needs='two configured generators, where a directory of the second cannot be made',
  breaks='each generator makes its directories just before it writes, so files of the first are written before the directories of the second exist',
  edits=[('internal/gen/gen.go', '''	if err := o.mkdirs(); err != nil {
		return err
	}

	if err := o.runSubgens(); err != nil {
		return err
	}

	return nil
''', '''	for _, subg := range o.subgens {
		single := OnSuite{parent: o.parent, suite: o.suite, subgens: []subgen.OnSuite{subg}}

		if err := single.mkdirs(); err != nil {
			return err
		}

		if err := single.runSubgens(); err != nil {
			return err
		}
	}

	return nil
''')],
  test='''package gen

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/UoY-RoboStar/rtcg/internal/gen/config"
	cfg "github.com/UoY-RoboStar/rtcg/internal/gen/config/cpp"
	"github.com/UoY-RoboStar/rtcg/internal/stm"
)

func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	if err := os.WriteFile(filepath.Join(dir, "ros"), nil, 0o600); err != nil {
		t.Fatal(err)
	}
	cfgs := []cfg.Config{*cfg.New(cfg.VariantAnimate), *cfg.New(cfg.VariantRos)}
	g, err := New(config.Config{Cpps: cfgs, Directory: dir}, dir)
	if err != nil {
		t.Fatal(err)
	}
	if err := g.OnSuite(&stm.Suite{}).Generate(); err == nil {
		t.Fatal("a file is in the way, but no error")
	}
	if _, err := os.Stat(filepath.Join(dir, "animate", "src", "convert", "convert.h")); err == nil {
		t.Fatal("wrote before all directories were made")
	}
}
'''),
dict(id='c15-no-outputs', property='C15', pkg='internal/gen',
  needs='an animate driver for a machine without outputs',
  breaks='the branch for machines without outputs reads a field that the data does not have',
  edits=[('internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl', '''    std::cout << "  No outputs available for this test-case.\\n";''', '''    std::cout << "  No outputs available for {{ .Stm.Name }}.\\n";''')],
  test=drive('''	build(t, tag(testlang.Root(testlang.TestPoint(in("a", v(1)), "t")), "t"))
''')),
dict(id='c16-fail-first-out', property='C16', pkg='internal/gen',
  needs='a state with a failing verdict that also sends an input',
  breaks='a state that sends an input sends it even though the test has failed there',
  edits=[(SE, '''{{- if .Verdict.IsFail }}
''', '''{{- if and .Verdict.IsFail (not .HasIn) }}
''')],
  test=drive('''	next := tag(testlang.Inc(in("b", v(3)), tag(testlang.Inc(out("a", v(9)), tag(testlang.Fail(), "t")), "t")), "t")
	exe := build(t, tag(testlang.Root(tag(testlang.Inc(out("a", v(1)), tag(testlang.Fail(), "u"), next), "t", "u")), "t", "u"))
	if log, code := run(t, exe, "a 1"); code != 1 || strings.Contains(log, "received by SUT") {
		t.Fatal(code, log)
	}
''')),
dict(id='c16-accepted-next', property='C16', pkg='internal/gen',
  needs='two states that send inputs, on different channels, with the first state of the merged table not the current one',
  breaks='an accepted input enters the successor of whichever state has the first input on the first input channel',
  edits=[(ST, '''{{-   block "in_callback" .Transitions.InMerged }}
{{-     template "in_callback.cpp.tmpl" . }}
{{-   end -}}''', '''{{-   block "in_callback" (index .Transitions.In 0).States }}
{{-     template "in_callback.cpp.tmpl" . }}
{{-   end -}}''')],
  test=drive('''	n := tag(testlang.Inc(in("b", v(2)), testlang.TestPoint(out("c", v(3)), "t")), "t")
	exe := build(t, tag(testlang.Root(tag(testlang.Inc(in("a", v(1)), n), "t")), "t"))
	if log, code := run(t, exe, "ready\\naccept\\naccept\\nc 3"); code != 1 {
		t.Fatal(code, log)
	}
''')),
dict(id='c17-twice', property='C17', pkg='internal/gen',
  needs='a constructor-time failure followed by more callbacks: a test that ends twice',
  breaks='ending again with a bug overrides the status the test has ended with',
  edits=[(ST, '''  if (!rtcg::status::isRunning(status_))
  {
    {{ template "log" "error" }}"Tried''', '''  if (!rtcg::status::isRunning(status_) && s != rtcg::Status::TIMEOUT)
  {
    {{ template "log" "error" }}"Tried'''), (ST, '''  // Don't acknowledge this callback if we've already timed out.
  if (!rtcg::status::isRunning(status_))
    return;
''', '''  // Don't acknowledge this callback if we've already timed out.
  if (status_ == rtcg::Status::TIMEOUT)
    return;
''')],
  demo='''#!/bin/bash
# Generates the ROS driver and calls its time-out after the test has failed, with a stand-in for ROS.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 2; trap 'rm -rf "$T"' EXIT
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
cd "$PWD" && go build -o "$T/" ./cmd/... || exit 2
cat > "$T/traces" <<X
a.out.1
X
echo '<rtcg-gen><cpp variant="animate"></cpp></rtcg-gen>' > "$T/gen.xml"
(cd "$T" && ./rtcg-read-traces traces > tests.json && ./rtcg-make-stms tests.json > stms.json && ./rtcg-gen -output out gen.xml stms.json) || exit 2
S="$T/out/animate/src"
sed 's/int main(/int unused_main(/' "$S/test0/src/main.cpp" > "$T/driver.cpp"
cat >> "$T/driver.cpp" <<X

int main()
{
  StateMachine stm;
  stm.aCallback(1);
  const auto first = stm.getStatus();
  stm.timeoutCallback();
  return first == rtcg::Status::FAIL && stm.getStatus() == first ? 0 : 1;
}
X
g++ -std=c++11 -w -I"$S/rtcg" -I"$S/convert" -o "$T/prog" "$T/driver.cpp" "$S/rtcg/rtcg.cpp" && "$T/prog"
'''),
dict(id='c18-small-tests', property='C18', pkg='internal/gen',
  needs='a suite with a test that has only one state',
  breaks='tests with a single state are not reachable from the target all',
  edits=[('internal/gen/makefile/context.go', '''	Tests map[string]*stm.Stm // Tests is the set of tests for which we are generating Makefile rules.
''', '''	Tests map[string]*stm.Stm // Tests is the set of tests for which we are generating Makefile rules.
	Multi map[string]*stm.Stm // Multi is the set of tests that are worth building by default.
'''), ('internal/gen/makefile/context.go', '''	return &Context{Tests: suite.Tests, Context: cfg}
''', '''	multi := make(map[string]*stm.Stm, len(suite.Tests))

	for name, test := range suite.Tests {
		if 1 < len(test.States) || len(suite.Tests) == 1 {
			multi[name] = test
		}
	}

	return &Context{Tests: suite.Tests, Multi: multi, Context: cfg}
'''), ('internal/gen/makefile/embed/templates/Makefile.tmpl', '''all: mkdir {{- range $k, $v := .Tests }}''', '''all: mkdir {{- range $k, $v := .Multi }}''')],
  test='''package gen

import (
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"

	"github.com/UoY-RoboStar/rtcg/internal/gen/config"
	cfg "github.com/UoY-RoboStar/rtcg/internal/gen/config/cpp"
	"github.com/UoY-RoboStar/rtcg/internal/gen/config/makefile"
	"github.com/UoY-RoboStar/rtcg/internal/stm"
)

func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	c := cfg.New(cfg.VariantAnimate)
	c.Makefile = &makefile.Makefile{}
	g, err := New(config.Config{Cpps: []cfg.Config{*c}, Directory: dir}, dir)
	if err != nil {
		t.Fatal(err)
	}
	m := func(n int) *stm.Stm {
		var r stm.Stm
		for i := 0; i < n; i++ {
			r.States = append(r.States, stm.NewState("s"))
		}
		return &r
	}
	s := &stm.Suite{Tests: map[string]*stm.Stm{"one": m(1), "two": m(2)}}
	if err := g.OnSuite(s).Generate(); err != nil {
		t.Fatal(err)
	}
	cmd := exec.Command("make", "-n", "all")
	cmd.Dir = filepath.Join(dir, "animate")
	out, err := cmd.CombinedOutput()
	if err != nil || !strings.Contains(string(out), "bin/one") || !strings.Contains(string(out), "bin/two") {
		t.Fatal(err, string(out))
	}
	_ = os.Args
}
'''),
dict(id='c19-make-order', property='C19', pkg='internal/gen/makefile',
  needs='a suite with several tests, generated twice',
  breaks='the targets of the Makefile are listed in the order of a map iteration',
  edits=[('internal/gen/makefile/context.go', '''	Tests map[string]*stm.Stm // Tests is the set of tests for which we are generating Makefile rules.
''', '''	Tests map[string]*stm.Stm // Tests is the set of tests for which we are generating Makefile rules.
	Names []string            // Names is the list of names of the tests.
'''), ('internal/gen/makefile/context.go', '''	return &Context{Tests: suite.Tests, Context: cfg}
''', '''	names := make([]string, 0, len(suite.Tests))

	for name := range suite.Tests {
		names = append(names, name)
	}

	return &Context{Tests: suite.Tests, Names: names, Context: cfg}
'''), ('internal/gen/makefile/embed/templates/Makefile.tmpl', '''all: mkdir {{- range $k, $v := .Tests }}''', '''all: mkdir {{- range $k := .Names }}''')],
  test='''package makefile

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/UoY-RoboStar/rtcg/internal/gen/config/cpp"
	"github.com/UoY-RoboStar/rtcg/internal/gen/gencommon"
	"github.com/UoY-RoboStar/rtcg/internal/stm"
)

func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	s := &stm.Suite{Tests: map[string]*stm.Stm{}}
	for i := 0; i < 9; i++ {
		s.Tests[fmt.Sprint("t", i)] = &stm.Stm{States: []*stm.State{stm.NewState("x"), stm.NewState("y")}}
	}
	var first string
	for i := 0; i < 40; i++ {
		g, err := New(cpp.New(cpp.VariantAnimate), gencommon.DirSet{Input: dir, Output: dir})
		if err != nil {
			t.Fatal(err)
		}
		if err := g.OnSuite(s).Generate(); err != nil {
			t.Fatal(err)
		}
		bs, err := os.ReadFile(filepath.Join(dir, "Makefile"))
		if err != nil {
			t.Fatal(err)
		}
		if i > 0 && string(bs) != first {
			t.Fatal("two runs differ")
		}
		first = string(bs)
	}
}
'''),
dict(id='c20-node-numbers', property='C20', pkg='internal/stm',
  needs='a suite of several tests of which one is built after another',
  breaks='the counter for identifiers is only reset when the machine is not empty, so identifiers depend on the other tests of the suite',
  edits=[('internal/stm/builder.go', '''	b.nodeNum = 0
	b.stm =''', '''	if len(b.stm.States) == 0 {
		b.nodeNum = 0
	}

	b.stm =''')],
  test='''package stm

import (
	"testing"

	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
	"github.com/UoY-RoboStar/rtcg/internal/validate"
)

func TestZZDemo(t *testing.T) {
	var b Builder
	for i := 0; i < 2; i++ {
		r := testlang.Root(testlang.TestPoint(testlang.Output("a", value.Int(1)), "x"))
		r.Mark("x")
		vt, err := validate.Full(&r)
		if err != nil {
			t.Fatal(err)
		}
		m, err := b.Build(vt)
		if err != nil || m.States[1].ID != "step0" {
			t.Fatal(m.States[1].ID, err)
		}
	}
}
'''),
dict(id='c21-few-arguments', property='C21', pkg='cmd/rtcg-gen',
  needs='running the generator without any arguments',
  breaks='any number of arguments below the largest is taken to mean standard input, so the configuration argument is indexed in an empty list',
  edits=[('internal/cli/cli.go', '''	switch len(args) {
	case maxArgs:
		// Last argument is the file.
		return args[maxArgs-1], nil
	case maxArgs - 1:
		// Missing file argument, try stdin.
		return stdinPath, nil
	default:
		return "", ErrBadArgs
	}
''', '''	switch nargs := len(args); {
	case nargs == maxArgs:
		// Last argument is the file.
		return args[maxArgs-1], nil
	case nargs < maxArgs:
		// Missing file argument, try stdin.
		return stdinPath, nil
	default:
		return "", ErrBadArgs
	}
''')],
  test='''package main

import (
	"os"
	"testing"
)

func TestZZDemo(t *testing.T) {
	os.Args = []string{"rtcg-gen"}
	if _, err := parseArgs(); err == nil {
		t.Fatal("accepted no arguments")
	}
}
'''),
dict(id='c22-leak', property='C22', pkg='cmd/rtcg-read-traces',
  needs='a trace file that cannot be parsed',
  breaks='the trace file stays open when it cannot be parsed',
  edits=[('cmd/rtcg-read-traces/main.go', '''	traces, err := trace.Read(file)

	return traces, errors.Join(err, file.Close())
''', '''	traces, err := trace.Read(file)
	if err != nil {
		return nil, errors.Join(fmt.Errorf("couldn't read %q: %w", fname, err))
	}

	return traces, errors.Join(file.Close())
''')],
  test='''package main

import (
	"os"
	"path/filepath"
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "bad-traces")
	if err := os.WriteFile(p, []byte("nonsense\\n"), 0o600); err != nil {
		t.Fatal(err)
	}
	if _, err := readTraces(p); err == nil {
		t.Fatal("bad traces accepted")
	}
	ents, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		t.Fatal(err)
	}
	for _, e := range ents {
		if l, _ := os.Readlink("/proc/self/fd/" + e.Name()); strings.HasSuffix(l, "bad-traces") {
			t.Fatal("left open")
		}
	}
}
'''),
dict(id='c24-ros-catkin', property='C24', pkg='internal/gen',
  needs='a configuration of a variant other than ROS that has a Catkin section',
  breaks='Catkin files are only made for ROS even when another variant configures Catkin',
  edits=[('internal/gen/gen.go', '''	if config.Catkin == nil {
		return nil, nil
	}
''', '''	if config.Catkin == nil || config.Variant != cfg.VariantRos {
		return nil, nil
	}
''')],
  test='''package gen

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/UoY-RoboStar/rtcg/internal/gen/config"
	"github.com/UoY-RoboStar/rtcg/internal/gen/config/catkin"
	cfg "github.com/UoY-RoboStar/rtcg/internal/gen/config/cpp"
	"github.com/UoY-RoboStar/rtcg/internal/stm"
)

func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	c := cfg.New(cfg.VariantAnimate)
	c.Catkin = &catkin.Config{}
	g, err := New(config.Config{Cpps: []cfg.Config{*c}, Directory: dir}, dir)
	if err != nil {
		t.Fatal(err)
	}
	s := &stm.Suite{Tests: map[string]*stm.Stm{"one": {States: []*stm.State{stm.NewState("x")}}}}
	if err := g.OnSuite(s).Generate(); err != nil {
		t.Fatal(err)
	}
	if _, err := os.Stat(filepath.Join(dir, "animate", "src", "one", "package.xml")); err != nil {
		t.Fatal(err)
	}
}
'''),
dict(id='c25-shared-package', property='C25', pkg='internal/gen/catkin',
  needs='a suite with two or more tests',
  breaks='the package is expanded in place, so every test after the first gets the name of the first',
  edits=[('internal/gen/catkin/catkin.go', '''	pkg := *o.parent.config.Package
	pkg.Expand(name)
''', '''	template := o.parent.config.Package
	template.Expand(name)

	pkg := *template
''')],
  test='''package catkin

import (
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/UoY-RoboStar/rtcg/internal/gen/config/cpp"
	"github.com/UoY-RoboStar/rtcg/internal/gen/gencommon"
	"github.com/UoY-RoboStar/rtcg/internal/stm"
)

func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	names := []string{"one", "two"}
	s := &stm.Suite{Tests: map[string]*stm.Stm{}}
	for _, n := range names {
		s.Tests[n] = &stm.Stm{States: []*stm.State{stm.NewState("x")}}
		if err := os.MkdirAll(filepath.Join(dir, "src", n), 0o755); err != nil {
			t.Fatal(err)
		}
	}
	g, err := New(cpp.New(cpp.VariantRos), gencommon.DirSet{Input: dir, Output: dir})
	if err != nil {
		t.Fatal(err)
	}
	if err := g.OnSuite(s).Generate(); err != nil {
		t.Fatal(err)
	}
	for _, n := range names {
		bs, err := os.ReadFile(filepath.Join(dir, "src", n, "package.xml"))
		if err != nil || !strings.Contains(string(bs), "<name>"+n+"</name>") {
			t.Fatal(err, string(bs))
		}
	}
}
'''),
dict(id='c27-fold-names', property='C27', pkg='internal/gen/config/cpp',
  needs='two channels whose names differ only in case, of which one is overridden',
  breaks='overrides are looked up regardless of case, so a channel that is not overridden gets the override of another',
  edits=[('internal/gen/config/cpp/cpp.go', '''		cmap[over.Name] = over.Type
''', '''		cmap[strings.ToLower(over.Name)] = over.Type
'''), ('internal/gen/config/cpp/cpp.go', '''import (
''', '''import (
	"strings"

'''), ('internal/gen/config/cpp/context.go', '''		override, ok := overrides[cname]
''', '''		override, ok := overrides[strings.ToLower(cname)]
'''), ('internal/gen/config/cpp/context.go', '''import (
''', '''import (
	"strings"

''')],
  test='''package cpp

import (
	"testing"

	"github.com/UoY-RoboStar/rtcg/internal/stm"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/rstype"
)

func TestZZDemo(t *testing.T) {
	ctx := New(VariantAnimate, WithChannel("move", "my::type")).Process(stm.TypeMap{"move": rstype.Enum(), "Move": rstype.Enum()})
	if !ctx.ChannelTypes["move"].HasOverride() || ctx.ChannelTypes["Move"].HasOverride() {
		t.Fatal(ctx.ChannelTypes)
	}
}
'''),
dict(id='c28-text-equality', property='C28', pkg='internal/testlang/value',
  needs='comparing a number with an enumeration constant that has the same text',
  breaks='values are compared by their text, so values of different types may be equal',
  edits=[('internal/testlang/value/value.go', '''	// TODO: is this the right way to compare these?
	return reflect.DeepEqual(v.content, other.content)
''', '''	return v.content.StringValue() == other.content.StringValue()
'''), ('internal/testlang/value/value.go', '''	"reflect"
''', '')],
  test='''package value

import "testing"

func TestZZDemo(t *testing.T) {
	n, e := Int(5), Enum("5")
	if n.Equals(e) || e.Equals(n) || !n.Equals(Int(5)) {
		t.Fatal("wrong equality")
	}
}
'''),
dict(id='c29-digits', property='C29', pkg='internal/strmanip',
  needs='a channel name in which an upper-case letter follows a digit',
  breaks='an underscore is added after anything that is not upper-case, not only after lower-case letters',
  edits=[('internal/strmanip/strmanip.go', '''	s.lastLower = unicode.IsLower(char)
''', '''	s.lastLower = !unicode.IsUpper(char)
''')],
  test='''package strmanip

import "testing"

func TestZZDemo(t *testing.T) {
	if got := ToLowerUnderscored("cam2Left"); got != "cam2left" {
		t.Fatal(got)
	}
}
'''),
dict(id='c30-late-input', property='C30', pkg='internal/gen',
  needs='a machine that has inputs, but not in its first state',
  breaks='the input callback is declared and used whenever there are inputs, but only defined if the first state has one',
  edits=[(ST, '''{{- if .Transitions.HasIn }}

void StateMachine::inputAcceptedCallback''', '''{{- if .Transitions.FirstStateHasIn }}

void StateMachine::inputAcceptedCallback''')],
  test=drive('''	build(t, tag(testlang.Root(tag(testlang.Inc(out("a", v(1)), testlang.TestPoint(in("b", v(2)), "t")), "t")), "t"))
''')),
]
