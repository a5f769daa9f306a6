# Whole functions written anew, as another author would.
import os
R = '/repo/'
def src(f): return open(R + f).read()
def fn(f, head, new):
    """Replaces the function whose declaration starts with head."""
    s = src(f); i = s.index(head); j = s.index('\n}\n', i) + 3
    return (f, s[i:j], new.lstrip('\n'))
def ok(prop, *edits): return (prop, 'ok', list(edits))
T='internal/trace/'; L='internal/testlang/'; S='internal/stm/'; V='internal/validate/'; G='internal/gen/'
CASES = [
ok('C03', fn(T+'expand.go', 'func (t Forbidden) Expand', '''
func (t Forbidden) Expand(name string) *testlang.Node {
	tail := []testlang.Node{testlang.TestPoint(t.Forbid, name)}

	for i := range t.Prefix {
		event := t.Prefix[len(t.Prefix)-1-i]

		step := testlang.Inc(event, tail...)
		step.Mark(name)

		tail = []testlang.Node{step}
	}

	root := testlang.Root(tail...)

	return root.Mark(name)
}
''')),
ok('C03', fn(T+'expand.go', 'func ExpandAll', '''
func ExpandAll(traces map[string]Forbidden) testlang.Suite {
	suite := make(testlang.Suite, len(traces))

	for name, forbidden := range traces {
		suite[name] = forbidden.Expand(name)
	}

	return suite
}
'''), (T+'expand.go', '	"github.com/UoY-RoboStar/rtcg/internal/structure"\n', '')),
ok('C01', fn(T+'read.go', 'func parseRow', '''
func parseRow(row []string) (Forbidden, error) {
	if len(row) == 0 {
		return Forbidden{}, ErrNeedOneEvent
	}

	var trace Forbidden

	row[0] = tryParseName(row[0], &trace)
	last := len(row) - 1

	for _, cell := range row[:last] {
		var event testlang.Event

		if err := event.UnmarshalText([]byte(cell)); err != nil {
			return trace, fmt.Errorf("couldn't parse trace cell: %w", err)
		}

		trace.Prefix = append(trace.Prefix, event)
	}

	if err := trace.Forbid.UnmarshalText([]byte(row[last])); err != nil {
		return trace, fmt.Errorf("couldn't parse trace cell: %w", err)
	}

	return trace, nil
}
'''), fn(T+'read.go', 'func selectEvent', '')),
ok('C01', fn(T+'read.go', 'func tryParseName', '''
func tryParseName(cell string, trace *Forbidden) string {
	pos := strings.Index(cell, ":")
	if pos < 0 {
		return cell
	}

	trace.Name = strings.TrimSpace(cell[:pos])

	return strings.TrimSpace(cell[pos+1:])
}
''')),
ok('C01', fn(T+'read.go', 'func Read(', '''
func Read(r io.Reader) ([]Forbidden, error) {
	var traces []Forbidden

	cr := newReader(r)

	for row, err := cr.Read(); !errors.Is(err, io.EOF); row, err = cr.Read() {
		if err != nil {
			return nil, fmt.Errorf("error reading trace row: %w", err)
		}

		next, perr := parseRow(row)
		if perr != nil {
			return nil, perr
		}

		traces = append(traces, next)
	}

	return traces, nil
}
''')),
ok('C05', fn(L+'walk.go', 'func Walk', '''
func Walk(node *Node, function func(*Node) error) error {
	stack := []*Node{node}

	for len(stack) != 0 {
		top := len(stack) - 1
		current := stack[top]
		stack = stack[:top]

		if err := function(current); err != nil {
			return err
		}

		for i := len(current.Next); i > 0; i-- {
			stack = append(stack, &current.Next[i-1])
		}
	}

	return nil
}
'''), (L+'walk.go','import "github.com/UoY-RoboStar/rtcg/internal/structure"\n','')),
ok('C02', fn(T+'trace.go', 'func Name', '''
func Name(traces []Forbidden) map[string]Forbidden {
	result := make(map[string]Forbidden, len(traces))

	for _, trace := range traces {
		base := trace.Name
		if base == "" {
			base = "test"
		}

		attempt := 0
		name := synthesiseName(base, attempt)

		for {
			if _, taken := result[name]; !taken {
				break
			}

			attempt++
			name = synthesiseName(base, attempt)
		}

		result[name] = trace
	}

	return result
}
'''), fn(T+'trace.go', 'func insertName', '')),
ok('C02', fn(T+'trace.go', 'func synthesiseName', '''
func synthesiseName(base string, attempt int) string {
	if base != "test" {
		if attempt == 0 {
			return base
		}

		attempt--
	}

	return base + strconv.Itoa(attempt)
}
'''), (T+'trace.go','	"strings"\n','	"strconv"\n	"strings"\n')),
ok('C04', fn(T+'collapse.go', 'func Collapse(', '''
func Collapse(test *testlang.Node) (Forbidden, error) {
	var collapsed Forbidden

	if err := validate.Root(test); err != nil {
		return collapsed, fmt.Errorf("test does not start with a valid root: %w", err)
	}

	node := test

	for pos := 1; ; pos++ {
		next, err := validate.OneNext(node)
		if err != nil {
			return collapsed, fmt.Errorf("couldn't get node %d: %w", pos, err)
		}

		if err := validate.Node(next); err != nil {
			return collapsed, fmt.Errorf("node %d failed verification: %w", pos, err)
		}

		done, err := collapseNode(&collapsed, next, pos)
		if err != nil || done {
			return collapsed, err
		}

		node = next
	}
}
''')),
ok('C04', fn(T+'collapse.go', 'func collapseNode', '''
func collapseNode(collapsed *Forbidden, test *testlang.Node, pos int) (bool, error) {
	if test.Outcome == testlang.OutcomeFail {
		return true, nil
	}

	if test.Outcome == testlang.OutcomePass {
		collapsed.Forbid = *test.Event

		return false, nil
	}

	if test.Outcome != testlang.OutcomeInc {
		return false, BadOutcomeError{Position: pos, Outcome: test.Outcome}
	}

	collapsed.Prefix = append(collapsed.Prefix, *test.Event)

	return false, nil
}
''')),
ok('C34', fn(T+'trace.go', 'func (t Trace) Equals', '''
func (t Trace) Equals(other Trace) bool {
	if len(t) != len(other) {
		return false
	}

	for i := range t {
		if !t[i].Equals(other[i]) {
			return false
		}
	}

	return true
}
''')),
ok('C34', fn(T+'trace.go', 'func (t Trace) IsPrefixOf', '''
func (t Trace) IsPrefixOf(other Trace) bool {
	if len(t) > len(other) {
		return false
	}

	i := 0
	for i < len(t) && t[i].Equals(other[i]) {
		i++
	}

	return i == len(t)
}
''')),
ok('C34', fn('internal/factorise/factorise.go', 'func SpineNodes', '''
func SpineNodes(tests map[string]trace.Forbidden, after trace.Trace) []testlang.Node {
	last := lastEvent(after)

	var spines, merged []testlang.Node

	for _, failure := range Failures(tests, after) {
		point := failure.Node()

		if !failure.Event.Channel.IsIn() {
			merged = append(merged, point)

			continue
		}

		spines = append(spines, testlang.Inc(last, point))
	}

	spines = append(spines, testlang.Inc(last, merged...))

	return spines
}
''')),
ok('C07', fn(S+'builder.go', 'func (b *Builder) Build(', '''
func (b *Builder) Build(test *validate.Test) (Stm, error) {
	b.reset()

	root := test.Root()
	root.ID = initialID
	b.stack.Push(root)

	var err error

	for err == nil && !b.stack.IsEmpty() {
		err = b.processNode(b.stack.Pop())
	}

	return b.stm, err
}

const initialID testlang.NodeID = "initial"

// reset makes b ready to build a new state machine.
func (b *Builder) reset() {
	b.nodeNum = 0
	b.stack.Clear()
	b.stm = Stm{
		States: make([]*State, 0),
		Tests:  structure.NewSet[string](),
		Types:  make(TypeMap),
	}
}
''')),
ok('C07', fn(S+'builder.go', 'func (b *Builder) processNode', '''
func (b *Builder) processNode(node *testlang.Node) error {
	if node.Outcome != testlang.OutcomeFail {
		b.stm.States = append(b.stm.States, b.buildState(node))

		if event := node.Event; event != nil {
			if err := b.inferEventType(event); err != nil {
				return err
			}
		}

		for i := range node.Next {
			b.stack.Push(&node.Next[i])
		}
	}

	return nil
}
'''), fn(S+'builder.go', 'func (b *Builder) pushNext', ''), fn(S+'builder.go', 'func (b *Builder) inferNodeEventType', '')),
ok('C07', fn(S+'builder.go', 'func (b *Builder) buildState', '''
func (b *Builder) buildState(node *testlang.Node) *State {
	for i := range node.Next {
		b.ensureNodeID(&node.Next[i])
	}

	state := NewState(node.ID)

	for i := range node.Next {
		next := &node.Next[i]

		for _, name := range next.Tests {
			b.stm.Tests.Add(name)
		}

		state.AddOutgoingNode(next)
	}

	return state
}
''')),
ok('C08', fn(S+'builder.go', 'func unifyTypes', '''
func unifyTypes(tests map[string]*Stm) (TypeMap, error) {
	unified := TypeMap{}

	for _, machine := range tests {
		if err := unified.merge(machine.Types); err != nil {
			return nil, err
		}
	}

	return unified, nil
}

// merge unifies each type in other with that in m.
func (m TypeMap) merge(other TypeMap) error {
	for name, typ := range other {
		result, err := rstype.Unify(m[name], typ)
		if err != nil {
			return fmt.Errorf("couldn't reconcile types for channel %s: %w", name, err)
		}

		m[name] = result
	}

	return nil
}
''')),
ok('C08', fn(S+'builder.go', 'func (b *Builder) inferEventType', '''
func (b *Builder) inferEventType(event *testlang.Event) error {
	types := b.stm.Types
	name := event.Channel.Name

	unified, err := rstype.Unify(types[name], event.Value.Type())
	if err != nil {
		return fmt.Errorf("incompatible type information for %s: %w", name, err)
	}

	types[name] = unified

	return nil
}
''')),
ok('C08', fn(L+'rstype/unify.go', 'func Unify', '''
func Unify(lhs, rhs *RsType) (*RsType, error) {
	if lhs == nil {
		return rhs, nil
	}

	if rhs == nil {
		return lhs, nil
	}

	if lhs.kind != rhs.kind {
		return nil, fmt.Errorf("%w: %s and %s", ErrUnifyDifferentKinds, lhs, rhs)
	}

	if lhs.kind != KindArithmos {
		return lhs, nil
	}

	return Arithmos(MaxDomain(lhs.arithmosDomain, rhs.arithmosDomain)), nil
}
''')),
ok('C20', fn(S+'builder.go', 'func (b *Builder) BuildMany', '''
func (b *Builder) BuildMany(s validate.Suite) (map[string]*Stm, error) {
	names := make([]string, 0, len(s))
	for name := range s {
		names = append(names, name)
	}

	sort.Strings(names)

	suite := make(map[string]*Stm, len(names))

	for _, name := range names {
		m, err := b.Build(s[name])
		if err != nil {
			return nil, fmt.Errorf("building %s: %w", name, err)
		}

		suite[name] = &m
	}

	return suite, nil
}
'''), (S+'builder.go', '	"fmt"\n', '	"fmt"\n	"sort"\n')),
ok('C20', fn(S+'builder.go', 'func (b *Builder) BuildSuite', '''
func (b *Builder) BuildSuite(tests validate.Suite) (*Suite, error) {
	machines, err := b.BuildMany(tests)
	if err != nil {
		return nil, err
	}

	types, err := unifyTypes(machines)
	if err != nil {
		return nil, err
	}

	return &Suite{Types: types, Tests: machines}, nil
}
''')),
ok('C06', fn(S+'transition/set.go', 'func AddToSets', '''
func AddToSets(sets []Set, channel channel.Channel, transition Transition) []Set {
	if i := indexOf(sets, channel); i >= 0 {
		sets[i].Transitions = append(sets[i].Transitions, transition)

		return sets
	}

	return append(sets, NewSet(channel, transition))
}

// indexOf finds the set for channel in sets, or returns -1.
func indexOf(sets []Set, channel channel.Channel) int {
	for i, set := range sets {
		if set.IsForChannel(channel) {
			return i
		}
	}

	return -1
}
''')),
ok('C26', fn(S+'transition/set.go', 'func AddToAggregateSets', '''
func AddToAggregateSets(aggs []AggregateSet, stateID testlang.NodeID, set Set) []AggregateSet {
	for _, agg := range aggs {
		if agg.IsForChannel(set.Channel) {
			// The map is shared by the copy.
			agg.States[stateID] = append(agg.States[stateID], set.Transitions...)

			return aggs
		}
	}

	states := make(map[testlang.NodeID][]Transition)
	states[stateID] = set.Transitions

	return append(aggs, NewAggregateSet(set.Channel, states))
}
''')),
ok('C26', fn(S+'state.go', 'func (s *State) In()', '''
func (s *State) In() *transition.Flat {
	for i := range s.TransitionSets {
		set := &s.TransitionSets[i]

		if !set.Channel.IsIn() || len(set.Transitions) != 1 {
			continue
		}

		return &transition.Flat{Channel: set.Channel, Transition: set.Transitions[0]}
	}

	return nil
}
''')),
ok('C07', fn(S+'state.go', 'func (s *State) addTransitionToNode', '''
func (s *State) addTransitionToNode(node *testlang.Node) {
	switch {
	case node.Outcome == testlang.OutcomeFail:
		return
	case node.ID == "":
		panic("should have assigned an ID to node")
	}

	event := node.Event
	s.TransitionSets = transition.AddToSets(s.TransitionSets, event.Channel, transition.Transition{
		Value: event.Value,
		Next:  node.ID,
	})
}
''')),
ok('C10', fn(S+'verdict/verdict.go', 'func (v *Verdict) UnmarshalJSON', '''
func (v *Verdict) UnmarshalJSON(bs []byte) error {
	strMap := map[string]string{}

	if err := json.Unmarshal(bs, &strMap); err != nil {
		return fmt.Errorf("couldn't unmarshal verdict set: %w", err)
	}

	result := make(Verdict, len(strMap))

	for test, outStr := range strMap {
		var outcome testlang.Outcome

		if err := outcome.UnmarshalText([]byte(outStr)); err != nil {
			return fmt.Errorf("couldn't unmarshal status %q: %w", outStr, err)
		}

		result[test] = outcome
	}

	*v = result

	return nil
}
''')),
ok('C07', fn(S+'verdict/verdict.go', 'func (v *Verdict) SetOf', '''
func (v *Verdict) SetOf(status testlang.Outcome) TestSet {
	var matching []string

	for test, outcome := range *v {
		if outcome == status {
			matching = append(matching, test)
		}
	}

	return TestSet(structure.NewSet(matching...))
}
''')),
ok('C29', fn('internal/strmanip/strmanip.go', 'func UpcaseFirst', '''
func UpcaseFirst(ident string) string {
	runes := []rune(ident)
	if len(runes) == 0 {
		return ""
	}

	runes[0] = unicode.ToUpper(runes[0])

	return string(runes)
}
''')),
ok('C05', fn(V+'node.go', 'func Node', '''
func Node(node *testlang.Node) error {
	if len(node.Tests) == 0 {
		return ErrNoTests
	}

	if node.Outcome == testlang.OutcomeUnset {
		return ErrNoOutcome
	}

	if node.Outcome == testlang.OutcomeFail {
		return failNode(node)
	}

	isPass := node.Outcome == testlang.OutcomePass
	if !isPass && node.Outcome != testlang.OutcomeInc {
		return fmt.Errorf("%w: %s", ErrBadOutcome, node.Outcome)
	}

	if isPass {
		if err := passNode(node); err != nil {
			return err
		}
	}

	return nonFailNode(node)
}
''')),
ok('C05', fn(V+'validate.go', 'func Full(', '''
func Full(root *testlang.Node) (*Test, error) {
	if root == nil {
		return nil, ErrNoRoot
	}

	check := func(node *testlang.Node) error {
		validator := Node
		if node == root {
			validator = Root
		}

		if err := validator(node); err != nil {
			return fmt.Errorf("invalid node %q: %w", node, err)
		}

		return nil
	}

	if err := testlang.Walk(root, check); err != nil {
		return nil, fmt.Errorf("failed to validate test: %w", err)
	}

	return &Test{root: root}, nil
}
''')),
ok('C05', fn(V+'suite.go', 'func FullSuite', '''
func FullSuite(suite testlang.Suite) (Suite, error) {
	validated := make(Suite, len(suite))

	for name, root := range suite {
		test, err := Full(root)
		if err != nil {
			return nil, fmt.Errorf("couldn't validate suite: %w", err)
		}

		validated[name] = test
	}

	return validated, nil
}
'''), (V+'suite.go', '	"github.com/UoY-RoboStar/rtcg/internal/structure"\n', '')),
ok('C10', fn('internal/structure/set.go', 'func (s *Set[T]) Values', '''
func (s *Set[T]) Values() []T {
	values := make([]T, 0, len(s.contents))
	keys := make(map[T]string, len(s.contents))

	for k, present := range s.contents {
		if !present {
			continue
		}

		keys[k] = fmt.Sprint(k)
		values = append(values, k)
	}

	sort.Slice(values, func(i, j int) bool {
		return keys[values[i]] < keys[values[j]]
	})

	return values
}
''')),
ok('C09', fn(L+'channel/channel.go', 'func (c *Channel) UnmarshalTextWithRemainder', '''
func (c *Channel) UnmarshalTextWithRemainder(text []byte) ([]byte, error) {
	sep := []byte(EventSep)

	name, rest, found := bytes.Cut(text, sep)
	if !found {
		return nil, BadFieldCountError{Got: 1}
	}

	kind, remainder, hasValue := bytes.Cut(rest, sep)

	c.Name = string(bytes.TrimSpace(name))
	if c.IsEmpty() {
		return nil, ErrNoName
	}

	if err := c.Kind.UnmarshalText(bytes.TrimSpace(kind)); err != nil {
		return nil, fmt.Errorf("couldn't unmarshal direction of event: %w", err)
	}

	if !hasValue {
		return nil, nil
	}

	return remainder, nil
}
'''), (L+'channel/channel.go','''	// numChannelParts is the number of parts a channel can theoretically be split into.
	numChannelParts = 2
	// numEventParts is the number of parts an event can theoretically be split into.
	numEventParts = numChannelParts + 1
''','')),
ok('C09', fn(L+'channel/channel.go', 'func (c *Channel) MarshalText', '''
func (c *Channel) MarshalText() ([]byte, error) {
	if c.IsEmpty() {
		return []byte{}, nil
	}

	kind, err := c.Kind.MarshalText()
	if err != nil {
		return nil, fmt.Errorf("couldn't marshal kind of channel: %w", err)
	}

	text := append([]byte(c.Name), EventSep...)

	return append(text, kind...), nil
}
''')),
ok('C09', fn(L+'event.go', 'func (e *Event) MarshalText', '''
func (e *Event) MarshalText() ([]byte, error) {
	text, err := e.Channel.MarshalText()
	if err != nil {
		return nil, fmt.Errorf("couldn't marshal channel of event: %w", err)
	}

	if e.Value.IsPresent() {
		val, err := e.Value.MarshalText()
		if err != nil {
			return nil, fmt.Errorf("couldn't marshal value of event: %w", err)
		}

		text = channel.EventSepJoin(text, val)
	}

	return text, nil
}
''')),
ok('C09', fn(L+'event.go', 'func (e *Event) UnmarshalText', '''
func (e *Event) UnmarshalText(text []byte) error {
	switch rest, err := e.Channel.UnmarshalTextWithRemainder(text); {
	case err != nil:
		return fmt.Errorf("couldn't unmarshal channel of event: %w", err)
	case rest == nil:
		return nil
	default:
		if err := e.Value.UnmarshalText(rest); err != nil {
			return fmt.Errorf("couldn't unmarshal value of event: %w", err)
		}

		return nil
	}
}
''')),
ok('C09', fn(L+'value/value.go', 'func (v *Value) UnmarshalText', '''
func (v *Value) UnmarshalText(text []byte) error {
	text = bytes.TrimSpace(text)

	var (
		number IntValue
		enum   EnumValue
	)

	if content := tryUnmarshal(&number, text); content != nil {
		v.content = content

		return nil
	}

	if content := tryUnmarshal(&enum, text); content != nil {
		v.content = content

		return nil
	}

	v.content = nil

	return fmt.Errorf("%w: input %q", ErrUnsupportedValueType, string(text))
}
''')),
ok('C09', fn(L+'value/int.go', 'func (i *IntValue) UnmarshalText', '''
func (i *IntValue) UnmarshalText(text []byte) error {
	str := string(text)

	parsed, err := strconv.ParseInt(str, intValueBase, 64)
	*i = IntValue(parsed)

	if err != nil {
		return fmt.Errorf("couldn't parse %q as int: %w", str, err)
	}

	return nil
}
''')),
ok('C28', fn(L+'value/value.go', 'func (v *Value) Equals', '''
func (v *Value) Equals(other Value) bool {
	if v.IsEmpty() || other.IsEmpty() {
		return v.IsEmpty() && other.IsEmpty()
	}

	return reflect.DeepEqual(v.content, other.content)
}
''')),
ok('C09', fn(L+'rstype/rstype.go', 'func (t *RsType) UnmarshalText', '''
func (t *RsType) UnmarshalText(text []byte) error {
	name := strings.ToLower(string(text))

	parsed, ok := map[string]*RsType{
		"()":   Empty(),
		"enum": Enum(),
		"nat":  Arithmos(ArithmosDomainNat),
		"int":  Arithmos(ArithmosDomainInt),
		"real": Arithmos(ArithmosDomainReal),
	}[name]
	if !ok {
		*t = *Empty()

		return TypeUnmarshalError{TypeName: name}
	}

	*t = *parsed

	return nil
}
'''), (L+'rstype/rstype.go', '	"bytes"\n	"fmt"\n', '	"fmt"\n	"strings"\n')),
ok('C09', fn(L+'rstype/rstype.go', 'func (t *RsType) tryString', '''
func (t *RsType) tryString() (string, bool) {
	switch t.kind {
	case KindEmpty:
		return "()", true
	case KindEnum:
		return "enum", true
	case KindArithmos:
		name, ok := map[ArithmosDomain]string{
			ArithmosDomainNat:  "nat",
			ArithmosDomainInt:  "int",
			ArithmosDomainReal: "real",
		}[t.arithmosDomain]

		return name, ok
	default:
		return "", false
	}
}
''')),
ok('C27', fn(G+'config/cpp/context.go', 'func (c *Config) Process', '''
func (c *Config) Process(types stm.TypeMap) Context {
	overrides := c.ChannelMap()
	channelTypes := make(map[string]ChannelType, len(types))
	hasConversion := false

	for name, base := range types {
		override, overridden := overrides[name]
		hasConversion = hasConversion || overridden
		channelTypes[name] = ChannelType{Base: base, Override: override}
	}

	return Context{
		Includes:      c.Includes,
		ChannelTypes:  channelTypes,
		HasConversion: hasConversion,
	}
}
''')),
ok('C16', fn(G+'gencommon/context.go', 'func makeTransitions', '''
func makeTransitions(machine *stm.Stm) TransitionContext {
	tctx := TransitionContext{
		All:             machine.TransitionSets(),
		InMerged:        transition.StateMap{},
		FirstStateHasIn: firstStateHasIn(machine),
	}

	for _, set := range tctx.All {
		tctx.Channels = append(tctx.Channels, set.Channel)

		if set.Channel.IsIn() {
			tctx.addInput(set)

			continue
		}

		tctx.Out = append(tctx.Out, set)
	}

	return tctx
}
'''), fn(G+'gencommon/context.go', 'func (c *TransitionContext) populateFilters', '')),
ok('C16', fn(G+'gencommon/context.go', 'func firstStateHasIn', '''
func firstStateHasIn(machine *stm.Stm) bool {
	return len(machine.States) > 0 && machine.States[0].HasIn()
}
''')),
ok('C14', fn(G+'gen.go', 'func (o *OnSuite) Generate', '''
func (o *OnSuite) Generate() error {
	for _, step := range []func() error{o.checkNames, o.mkdirs, o.runSubgens} {
		if err := step(); err != nil {
			return err
		}
	}

	return nil
}
''')),
ok('C24', fn(G+'gen.go', 'func initCppVariant', '''
func initCppVariant(config *cfg.Config, dirs gencommon.DirSet) ([]subgen.Subgenerator, error) {
	var subs []subgen.Subgenerator

	main, err := initCppMain(config, dirs)
	if err != nil {
		return nil, err
	}

	subs = append(subs, main...)

	pkg, err := initCppCatkin(config, dirs)
	if err != nil {
		return nil, err
	}

	subs = append(subs, pkg...)

	mk, err := initCppMakefile(config, dirs)
	if err != nil {
		return nil, err
	}

	return append(subs, mk...), nil
}
'''), (G+'gen.go', 'type genFunc func(*cfg.Config, gencommon.DirSet) ([]subgen.Subgenerator, error)\n\n', '')),
ok('C24', fn(G+'gen.go', 'func initCppMain', '''
func initCppMain(config *cfg.Config, dirs gencommon.DirSet) ([]subgen.Subgenerator, error) {
	sub, err := cpp.New(config, dirs)
	if err != nil {
		return nil, fmt.Errorf("couldn't init c++ generator: %w", err)
	}

	subs := make([]subgen.Subgenerator, 0, 1)

	return append(subs, sub), nil
}
''')),
ok('C13', fn(G+'cpp/cpp.go', 'func (o *OnSuite) Dirs', '''
func (o *OnSuite) Dirs() []string {
	src := o.parent.srcDirSet

	dirs := []string{src.OutputPath(preludeDir)}

	if o.cctx.HasConversion {
		dirs = append(dirs, src.OutputPath(convertDir))
	}

	for name := range o.suite.Tests {
		test := src.Subdir(name)

		dirs = append(dirs, test.OutputPath("include"), test.OutputPath("src"))
	}

	return dirs
}
'''), fn(G+'cpp/cpp.go', 'func (o *OnSuite) testDirs', '')),
ok('C13', fn(G+'cpp/cpp.go', 'func (o *OnSuite) generateTestSpecific', '''
func (o *OnSuite) generateTestSpecific() error {
	gen := o.parent.templated.testSpecific

	for name, test := range o.suite.Tests {
		out := o.parent.srcDirSet.Subdir(name).Output

		if err := gen.Generate(out, NewContext(name, test, o.cctx)); err != nil {
			return fmt.Errorf("%s: generating test-specific files: %w", name, err)
		}
	}

	return nil
}
'''), fn(G+'cpp/cpp.go', 'func (o *OnSuite) generateTest(', '')),
ok('C14', fn(G+'cpp/copy.go', 'func writeFile', '''
func writeFile(src io.ReadCloser, outFile string) (err error) {
	defer func() { err = errors.Join(err, src.Close()) }()

	dst, err := os.Create(outFile)
	if err != nil {
		return fmt.Errorf("couldn't create dest file: %w", err)
	}

	defer func() { err = errors.Join(err, dst.Close()) }()

	if _, err := io.Copy(dst, src); err != nil {
		return fmt.Errorf("couldn't copy file %q: %w", outFile, err)
	}

	return nil
}
''')),
ok('C14', fn(G+'cpp/copy.go', 'func copyLocalFile', '''
func copyLocalFile(dirs gencommon.DirSet, name string) error {
	srcPath, dstPath := filepath.Join(dirs.Input, name), filepath.Join(dirs.Output, name)

	src, err := os.Open(srcPath)
	if err != nil {
		return fmt.Errorf("couldn't open file %q: %w", srcPath, err)
	}

	switch same, err := isSameFile(src, dstPath); {
	case err != nil:
		return errors.Join(err, src.Close())
	case !same:
		return writeFile(src, dstPath)
	}

	// Nothing to copy.
	if err := src.Close(); err != nil {
		return fmt.Errorf("couldn't close file %q: %w", srcPath, err)
	}

	return nil
}
''')),
ok('C22', fn(G+'templating/templating.go', 'func CreateFile', '''
func CreateFile(path, tmplName string, tmpl *template.Template, ctx any) (err error) {
	if err = os.MkdirAll(filepath.Dir(path), parentDirPerms); err != nil {
		return fmt.Errorf("couldn't make directory for output file: %w", err)
	}

	file, err := os.Create(path)
	if err != nil {
		return fmt.Errorf("couldn't create output file: %w", err)
	}

	defer func() {
		if cerr := file.Close(); cerr != nil {
			err = errors.Join(err, cerr)
		}
	}()

	return tmpl.ExecuteTemplate(file, tmplName, ctx)
}
''')),
ok('C22', fn(G+'config/config.go', 'func Load', '''
func Load(path string) (*Config, error) {
	file, err := os.Open(path)
	if err != nil {
		return nil, fmt.Errorf("couldn't open config file %q: %w", path, err)
	}

	var config Config

	err = errors.Join(xml.NewDecoder(file).Decode(&config), file.Close())
	if err != nil {
		return nil, fmt.Errorf("couldn't load config file %q: %w", path, err)
	}

	if len(config.Directory) == 0 {
		config.Directory = filepath.Dir(path)
	}

	return &config, nil
}
''')),
ok('C25', fn(G+'config/catkin/package.go', 'func (p *Package) Expand', '''
func (p *Package) Expand(name string) {
	for _, field := range []*string{
		&p.Name,
		&p.Description,
		&p.Maintainer.Name,
		&p.Maintainer.Email,
		&p.License,
	} {
		*field = expandOne(*field, name)
	}
}
''')),
ok('C25', fn(G+'config/catkin/package.go', 'func (p *Package) Autofill', '''
func (p *Package) Autofill() {
	// We don't support other formats.
	p.Format = 2

	fill := func(field *string, def string) {
		if *field == "" {
			*field = def
		}
	}

	fill(&p.Name, "${NAME}")
	fill(&p.Description, "Package for ${NAME}")
	fill(&p.Maintainer.Name, "${NAME} Maintainers")
	fill(&p.Maintainer.Email, "email@example.com")
	fill(&p.License, "Proprietary")
	fill(&p.Version, "0.1.0")
}
'''), fn(G+'config/catkin/package.go', 'func autofillOne', '')),
ok('C25', fn(G+'catkin/catkin.go', 'func (o *OnSuite) generateTest', '''
func (o *OnSuite) generateTest(dirs gencommon.DirSet, name string) error {
	ctx := Context{Package: *o.parent.config.Package, Context: o.cctx}
	ctx.Package.Expand(name)

	if err := generatePackageXML(dirs.Output, ctx.Package); err != nil {
		return err
	}

	if err := o.parent.cmakeGen.Generate(dirs.Output, ctx); err != nil {
		return fmt.Errorf("generating cmake: %w", err)
	}

	return nil
}
''')),
ok('C15', fn(G+'templating/set.go', 'func (b *SetBuilder) buildFile', '''
func (b *SetBuilder) buildFile(file File) (*template.Template, error) {
	tmpl := Funcs(template.New(file.Name).Funcs(b.Funcs))

	for _, src := range b.Srcs {
		pattern := path.Join("embed", "templates", src.Name, file.Glob)

		if _, err := tmpl.ParseFS(src.Src, pattern); err != nil {
			return nil, fmt.Errorf("couldn't open %s templates: %w", src.Name, err)
		}
	}

	return tmpl, nil
}
''')),
ok('C15', fn(G+'cpp/template.go', 'func makeTemplatedGenerators', '''
func makeTemplatedGenerators(config *cfg.Config) (templatedGenerators, error) {
	builder := templating.SetBuilder{
		Funcs: Funcs(),
		Srcs:  []templating.Source{{Name: "base", Src: baseTemplates}, variantSource(config.Variant)},
	}

	common, err := templating.NewGenerator([]templating.File{
		{Dir: "convert", Name: "convert.h", Desc: "type convert header", Glob: "convert/*.h.tmpl"},
	}, builder)
	if err != nil {
		return templatedGenerators{}, fmt.Errorf("couldn't create C++ template-based common files generator: %w", err)
	}

	testSpecific, err := templating.NewGenerator([]templating.File{
		{Dir: "src", Name: "main.cpp", Desc: "main C++ file", Glob: "*.cpp.tmpl"},
	}, builder)
	if err != nil {
		return templatedGenerators{}, fmt.Errorf("couldn't create C++ template-based test files generator: %w", err)
	}

	return templatedGenerators{common: common, testSpecific: testSpecific}, nil
}
''')),
ok('C15', fn(G+'cpp/template.go', 'func variantFS', '''
func variantFS(variant cfg.Variant) fs.FS {
	if variant == cfg.VariantAnimate {
		return animateTemplates
	}

	if variant == cfg.VariantRos {
		return rosTemplates
	}

	return nil
}
''')),
ok('C27', fn(G+'cpp/func.go', 'func StdType', '''
func StdType(rsType rstype.RsType) string {
	if rsType.IsEnum() {
		return "std::string"
	}

	for domain, name := range map[rstype.ArithmosDomain]string{
		rstype.ArithmosDomainNat:  "unsigned int",
		rstype.ArithmosDomainInt:  "int",
		rstype.ArithmosDomainReal: "double",
	} {
		if rsType.IsArithmos(domain) {
			return name
		}
	}

	return "void *"
}
''')),
ok('C27', fn(G+'cpp/func.go', 'func Value(', '''
func Value(val value.Value) string {
	str := val.StringValue()

	if val.Type().IsEnum() {
		str = `"` + Escape(str) + `"`
	}

	return str
}
''')),
ok('C16', fn(G+'cpp/func.go', 'func EnumField', '''
func EnumField(variant any) string {
	str := fmt.Sprintf("%v", variant)

	return strings.ToUpper(str)
}
'''), fn(G+'cpp/func.go', 'func convert(', '''
func convert(dir, cha string) string {
	return strings.Join([]string{dir, strmanip.UpcaseFirst(cha)}, "")
}
''')),
ok('C18', fn(G+'makefile/makefile.go', 'func (o *OnSuite) Generate', '''
func (o *OnSuite) Generate() error {
	gen := o.parent

	if err := templating.CreateFile(
		filepath.Join(gen.outputDir, makefileName),
		makefileName+".tmpl",
		gen.template,
		NewContext(o.suite, o.cctx),
	); err != nil {
		return fmt.Errorf("couldn't generate Makefile: %w", err)
	}

	return nil
}

const makefileName = "Makefile"
''')),
ok('C21', fn('internal/cli/cli.go', 'func ParseFileArgument', '''
func ParseFileArgument(args []string, maxArgs int) (string, error) {
	n := len(args)

	if n == maxArgs {
		return args[n-1], nil
	}

	if n+1 == maxArgs {
		return stdinPath, nil
	}

	return "", ErrBadArgs
}
''')),
ok('C23', fn('internal/cli/cli.go', 'func HandleError', '''
func HandleError(err error, usage func()) {
	if err != nil {
		_, _ = fmt.Fprintf(os.Stderr, "%v\\n", err)

		if errors.Is(err, ErrBadArgs) {
			usage()
		}

		os.Exit(1)
	}
}
''')),
ok('C23', fn('cmd/rtcg-gen/main.go', 'func parseArgs', '''
func parseArgs() (*genAction, error) {
	clean := flag.Bool("clean", false, "remove output directory before generating")
	outputDir := flag.String("output", "out", "output directory")

	flag.Usage = usage
	flag.Parse()

	inputFile, err := cli.ParseFileArgument(flag.Args(), numAnonymousArgs)
	if err != nil {
		return nil, fmt.Errorf("couldn't parse args: %w", err)
	}

	return &genAction{
		clean:      *clean,
		outputDir:  *outputDir,
		configFile: flag.Arg(0),
		inputFile:  inputFile,
	}, nil
}
''')),
ok('C12', fn('cmd/rtcg-gen/main.go', 'func (a *genAction) maybeClean', '''
func (a *genAction) maybeClean(inputs ...string) error {
	if !a.clean {
		return nil
	}

	protected := append([]string{"."}, inputs...)

	for i, path := range protected {
		contains, err := dirContains(a.outputDir, path)
		if !contains && err == nil {
			continue
		}

		if i == 0 {
			return errors.Join(err, ErrCleanDot)
		}

		return errors.Join(err, fmt.Errorf("%w: %q", ErrCleanInput, path))
	}

	if err := os.RemoveAll(a.outputDir); err != nil {
		return fmt.Errorf("couldn't clean %q: %w", a.outputDir, err)
	}

	return nil
}
''')),
ok('C11', fn('cmd/rtcg-make-stms/main.go', 'func (a *makeStmAction) run', '''
func (a *makeStmAction) run() error {
	tests, err := a.readValidated()
	if err != nil {
		return err
	}

	var builder stm.Builder

	suite, err := builder.BuildSuite(tests)
	if err != nil {
		return fmt.Errorf("couldn't build stms for test suite: %w", err)
	}

	if err := suite.Write(os.Stdout); err != nil {
		return fmt.Errorf("couldn't write state machines: %w", err)
	}

	return nil
}

func (a *makeStmAction) readValidated() (validate.Suite, error) {
	suite, err := a.readSuite()
	if err != nil {
		return nil, fmt.Errorf("couldn't read test suite: %w", err)
	}

	tests, err := validate.FullSuite(suite)
	if err != nil {
		return nil, fmt.Errorf("malformed test suite: %w", err)
	}

	return tests, nil
}
'''), fn('cmd/rtcg-make-stms/main.go', 'func (a *makeStmAction) buildStms', '')),
ok('C11', fn('cmd/rtcg-read-traces/main.go', 'func run', '''
func run() error {
	fname, err := parseArgs(os.Args)
	if err != nil {
		return err
	}

	return convert(fname, os.Stdout)
}

// convert reads the traces in fname, and writes tests for them to w.
func convert(fname string, w io.Writer) error {
	traces, err := readTraces(fname)
	if err != nil {
		return fmt.Errorf("couldn't read traces from file %q: %w", fname, err)
	}

	tests := trace.ExpandAll(trace.Name(traces))
	if err := tests.Write(w); err != nil {
		return fmt.Errorf("couldn't write expanded traces: %w", err)
	}

	return nil
}
'''), ('cmd/rtcg-read-traces/main.go', '	"fmt"\n', '	"fmt"\n	"io"\n')),
ok('C21', fn(S+'suite.go', 'func (s *Suite) checkNulls', '''
func (s *Suite) checkNulls() error {
	for name, machine := range s.Tests {
		if machine == nil {
			return fmt.Errorf("%w: %s", ErrNullStm, name)
		}

		if machine.hasNullState() {
			return fmt.Errorf("%w: %s", ErrNullState, name)
		}
	}

	return nil
}

func (s *Stm) hasNullState() bool {
	for i := 0; i < len(s.States); i++ {
		if s.States[i] == nil {
			return true
		}
	}

	return false
}
''')),
ok('C01', fn(T+'read.go', 'func parseRow', """
func parseRow(row []string) (Forbidden, error) {
	var trace Forbidden

	if len(row) == 0 {
		return trace, ErrNeedOneEvent
	}

	for index, cell := range row {
		if index == 0 {
			cell = tryParseName(cell, &trace)
		}

		var event testlang.Event

		if err := event.UnmarshalText([]byte(cell)); err != nil {
			return trace, fmt.Errorf("couldn't parse trace cell: %w", err)
		}

		if index < len(row)-1 {
			trace.Prefix = append(trace.Prefix, event)
		} else {
			trace.Forbid = event
		}
	}

	return trace, nil
}
"""), fn(T+'read.go', 'func selectEvent', '')),
ok('C01', fn(T+'read.go', 'func parseRow', """
func parseRow(row []string) (Forbidden, error) {
	if len(row) == 0 {
		return Forbidden{}, ErrNeedOneEvent
	}

	name, first := splitName(row[0])
	events := make([]testlang.Event, len(row))

	for i := range events {
		cell := row[i]
		if i == 0 {
			cell = first
		}

		if err := events[i].UnmarshalText([]byte(cell)); err != nil {
			return Forbidden{}, fmt.Errorf("couldn't parse trace cell: %w", err)
		}
	}

	trace := Forbidden{Name: name, Forbid: events[len(events)-1]}
	if len(events) > 1 {
		trace.Prefix = events[:len(events)-1]
	}

	return trace, nil
}

// splitName splits the name, if any, off cell.
func splitName(cell string) (string, string) {
	name, rest, ok := strings.Cut(cell, ":")
	if !ok {
		return "", cell
	}

	return strings.TrimSpace(name), strings.TrimSpace(rest)
}
"""), fn(T+'read.go', 'func selectEvent', ''), fn(T+'read.go', 'func tryParseName', '')),
]

for _n in ('\tcr := newReader(r)\n\n\tvar traces []Forbidden\n\n\trow, err := cr.Read()\n\tfor err == nil {\n\t\tnext, perr := parseRow(row)\n\t\tif perr != nil {\n\t\t\treturn nil, perr\n\t\t}\n\n\t\ttraces = append(traces, next)\n\n\t\trow, err = cr.Read()\n\t}\n\n\tif !errors.Is(err, io.EOF) {\n\t\treturn nil, fmt.Errorf("error reading trace row: %w", err)\n\t}\n\n\treturn traces, nil\n}\n', '\tvar (\n\t\ttraces []Forbidden\n\t\tdone   bool\n\t)\n\n\tcr := newReader(r)\n\n\tfor !done {\n\t\trow, err := cr.Read()\n\n\t\tswitch {\n\t\tcase errors.Is(err, io.EOF):\n\t\t\tdone = true\n\t\tcase err != nil:\n\t\t\treturn nil, fmt.Errorf("error reading trace row: %w", err)\n\t\tdefault:\n\t\t\tnext, err := parseRow(row)\n\t\t\tif err != nil {\n\t\t\t\treturn nil, err\n\t\t\t}\n\n\t\t\ttraces = append(traces, next)\n\t\t}\n\t}\n\n\treturn traces, nil\n}\n'):
    CASES.append(('C01', 'ok', [('internal/trace/read.go', '\tcr := newReader(r)\n\n\tvar traces []Forbidden\n\n\tfor {\n\t\trow, err := cr.Read()\n\t\tif errors.Is(err, io.EOF) {\n\t\t\treturn traces, nil\n\t\t}\n\n\t\tif err != nil {\n\t\t\treturn nil, fmt.Errorf("error reading trace row: %w", err)\n\t\t}\n\n\t\ttrace, err := parseRow(row)\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\n\t\ttraces = append(traces, trace)\n\t}\n}\n', _n)]))
