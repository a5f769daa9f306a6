BUGS = [
dict(id='c02-clash-search', property='C02',
  needs='an unnamed trace or a clashing name whose fresh name is already some trace\'s own name, placed earlier in the list',
  breaks='the fresh name is looked up by how often the base was used rather than by what is free, so an earlier trace with that explicit name is overwritten',
  pkg='internal/trace',
  edits=[('internal/trace/trace.go', '''	result := make(map[string]Forbidden, len(traces))
''', '''	result := make(map[string]Forbidden, len(traces))
	used := make(map[string]int, len(traces))
'''), ('internal/trace/trace.go', '''		insertName(result, base, trace)
''', '''		insertName(result, base, used[base], trace)
		used[base]++
'''), ('internal/trace/trace.go', '''func insertName(result map[string]Forbidden, base string, trace Forbidden) {
	for i := 0; ; i++ {
		name := synthesiseName(base, i)

		if _, ok := result[name]; !ok {
			result[name] = trace

			return
		}
	}
''', '''func insertName(result map[string]Forbidden, base string, attempt int, trace Forbidden) {
	result[synthesiseName(base, attempt)] = trace
''')],
  test='''package trace

import (
	"testing"

	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
)

func TestZZDemo(t *testing.T) {
	e := func(n string) testlang.Event { return testlang.Output(n, value.None()) }
	in := []Forbidden{New().ForbidWithName(e("a"), "foo0"), New().ForbidWithName(e("b"), "foo"), New().ForbidWithName(e("c"), "foo")}
	got := Name(in)
	if len(got) != 3 {
		t.Fatalf("lost a trace: %v", got)
	}
}
'''),
dict(id='c04-branch-at-end', property='C04',
  needs='a test tree whose only branching is directly before a failing node under an inconclusive chain of length one or more',
  breaks='a branching tree is collapsed silently when the extra successor is a failing node',
  pkg='internal/trace',
  edits=[('internal/validate/validate.go', '''	if nnodes := len(node.Next); nnodes != 1 {''', '''	if nnodes := len(node.Next); nnodes == 0 || nnodes > 1 && node.Next[nnodes-1].Outcome != testlang.OutcomeFail {''')],
  test='''package trace

import (
	"testing"

	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
)

func TestZZDemo(t *testing.T) {
	a := testlang.Output("a", value.None())
	root := testlang.Root(testlang.Inc(a, testlang.Pass(a, testlang.Fail()), testlang.Fail()))
	testlang.MarkAll(&root, "x")
	if _, err := Collapse(&root); err == nil {
		t.Fatal("a branching test was collapsed")
	}
}
'''),
dict(id='c05-untagged-fail', property='C05',
  needs='a failing node that belongs to no test',
  breaks='the check that a node is tagged is only made for nodes with an event, so untagged failing nodes are accepted',
  pkg='internal/validate',
  edits=[('internal/validate/node.go', '''func Node(node *testlang.Node) error {
	if len(node.Tests) == 0 {''', '''func Node(node *testlang.Node) error {
	if len(node.Tests) == 0 && node.Event != nil {''')],
  test='''package validate

import (
	"testing"

	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
)

func TestZZDemo(t *testing.T) {
	root := testlang.Root(testlang.Pass(testlang.Output("a", value.None()), testlang.Fail()))
	testlang.MarkAll(&root, "x")
	root.Next[0].Next[0].Tests = nil
	if _, err := Full(&root); err == nil {
		t.Fatal("an untagged node was accepted")
	}
}
'''),
dict(id='c26-aggregate-alias', property='C26',
  needs='a state that has two transition sets for the same channel after another state used it, which only a hand-written machine has',
  breaks='a second set of a state on a channel replaces the first in the summary instead of adding to it',
  pkg='internal/stm/transition',
  edits=[('internal/stm/transition/set.go', '''			ts.States[stateID] = append(ts.States[stateID], set.Transitions...)
''', '''			if len(ts.States) > 1 {
				ts.States[stateID] = set.Transitions
			} else {
				ts.States[stateID] = append(ts.States[stateID], set.Transitions...)
			}
''')],
  test='''package transition

import (
	"testing"

	"github.com/UoY-RoboStar/rtcg/internal/testlang/channel"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
)

func TestZZDemo(t *testing.T) {
	c := channel.In("foo")
	var aggs []AggregateSet
	aggs = AddToAggregateSets(aggs, "x", NewSet(c, Transition{Value: value.Int(1), Next: "y"}))
	aggs = AddToAggregateSets(aggs, "y", NewSet(c, Transition{Value: value.Int(1), Next: "z"}))
	aggs = AddToAggregateSets(aggs, "y", NewSet(c, Transition{Value: value.Int(2), Next: "z"}))
	if n := len(aggs[0].States["y"]); n != 2 {
		t.Fatalf("%d transitions, not 2", n)
	}
}
'''),
]
