# Further functions written anew, helpers extracted or folded in.
R = '/repo/'
def src(f): return open(R + f).read()
def fn(f, head, new):
    s = src(f); i = s.index(head); j = s.index('\n}\n', i) + 3
    return (f, s[i:j], new.lstrip('\n'))
def ok(prop, *edits): return (prop, 'ok', list(edits))
T='internal/trace/'; L='internal/testlang/'; S='internal/stm/'; V='internal/validate/'; G='internal/gen/'; C='internal/structure/'
F='internal/factorise/factorise.go'
CASES = [
#0 helper for splitting
ok('C34', fn(F, 'func SpineNodes', '''
func SpineNodes(tests map[string]trace.Forbidden, after trace.Trace) []testlang.Node {
	event := lastEvent(after)
	ins, outs := splitByKind(Failures(tests, after))

	spines := make([]testlang.Node, 0, len(ins)+1)
	for _, f := range ins {
		spines = append(spines, testlang.Inc(event, f.Node()))
	}

	nodes := make([]testlang.Node, len(outs))
	for i, f := range outs {
		nodes[i] = f.Node()
	}

	return append(spines, testlang.Inc(event, nodes...))
}

// splitByKind splits failures into those of inputs and the others.
func splitByKind(failures []Failure) (ins, outs []Failure) {
	for _, f := range failures {
		if f.Event.Channel.IsIn() {
			ins = append(ins, f)
			continue
		}

		outs = append(outs, f)
	}

	return ins, outs
}
''')),
#1
ok('C34', fn(F, 'func lastEvent', '''
func lastEvent(after trace.Trace) testlang.Event {
	if len(after) == 0 {
		return testlang.Event{}
	}

	return after[len(after)-1]
}
''')),
#2
ok('C34', fn(F, 'func Failures', '''
func Failures(tests map[string]trace.Forbidden, after trace.Trace) []Failure {
	var failures []Failure

	for name := range tests {
		test := tests[name]
		if !test.Prefix.Equals(after) {
			continue
		}

		failures = append(failures, Failure{name, test.Forbid})
	}

	return failures
}
''')),
#3
ok('C34', fn(T+'trace.go', 'func (t Trace) Equals', '''
func (t Trace) Equals(other Trace) bool {
	if len(t) != len(other) {
		return false
	}

	for i := range t {
		if !t[i].Equals(other[i]) {
			return false
		}
	}

	return true
}
''')),
#4
ok('C02', fn(T+'trace.go', 'func insertName', '''
func insertName(result map[string]Forbidden, base string, trace Forbidden) {
	attempt := 0
	name := synthesiseName(base, attempt)

	for taken(result, name) {
		attempt++
		name = synthesiseName(base, attempt)
	}

	result[name] = trace
}

func taken(names map[string]Forbidden, name string) bool {
	_, ok := names[name]

	return ok
}
''')),
#5
ok('C02', fn(T+'trace.go', 'func Name(', '''
func Name(traces []Forbidden) map[string]Forbidden {
	result := make(map[string]Forbidden, len(traces))

	for i := range traces {
		insertName(result, baseName(traces[i]), traces[i])
	}

	return result
}

func baseName(t Forbidden) string {
	if t.Name != "" {
		return t.Name
	}

	return "test"
}
''')),
#6
ok('C04', fn(L+'node.go', 'func TestPoint', '''
func TestPoint(event Event, tests ...string) Node {
	fail := Node{Outcome: OutcomeFail, Tests: tests}

	return Node{Outcome: OutcomePass, Event: &event, Tests: tests, Next: []Node{fail}}
}
''')),
#7
ok('C28', fn(L+'event.go', 'func (e *Event) Equals', '''
func (e *Event) Equals(other Event) bool {
	if !e.Value.Equals(other.Value) {
		return false
	}

	return e.Channel.Equals(other.Channel)
}
''')),
#8
ok('C09', fn(L+'event.go', 'func (e *Event) String', '''
func (e *Event) String() string {
	if e.Value.IsEmpty() {
		return e.Channel.String()
	}

	return e.Channel.String() + channel.EventSep + e.Value.String()
}
''')),
#9
ok('C09', fn(L+'event.go', 'func (e *Event) MarshalText', '''
func (e *Event) MarshalText() ([]byte, error) {
	text, err := e.Channel.MarshalText()
	if err != nil {
		return nil, fmt.Errorf("couldn't marshal channel of event: %w", err)
	}

	if !e.Value.IsEmpty() {
		val, err := e.Value.MarshalText()
		if err != nil {
			return nil, fmt.Errorf("couldn't marshal value of event: %w", err)
		}

		text = channel.EventSepJoin(text, val)
	}

	return text, nil
}
''')),
#10
ok('C21', fn(S+'suite.go', 'func ReadSuite', '''
func ReadSuite(r io.Reader) (*Suite, error) {
	suite := new(Suite)

	err := serial.ReadJSON(r, suite)
	if err != nil {
		return nil, fmt.Errorf("couldn't read state machine suite: %w", err)
	}

	if err = suite.checkNulls(); err != nil {
		return nil, err
	}

	return suite, nil
}
''')),
#11
ok('C26', fn(S+'stm.go', 'func (s *Stm) TransitionSets', '''
func (s *Stm) TransitionSets() []transition.AggregateSet {
	var aggs []transition.AggregateSet

	for i := range s.States {
		state := s.States[i]

		for j := range state.TransitionSets {
			aggs = transition.AddToAggregateSets(aggs, state.ID, state.TransitionSets[j])
		}
	}

	return aggs
}
''')),
#12
ok('C06', fn(S+'transition/set.go', 'func AddToSets', '''
func AddToSets(sets []Set, channel channel.Channel, transition Transition) []Set {
	i := indexForChannel(sets, channel)
	if i < 0 {
		return append(sets, NewSet(channel, transition))
	}

	sets[i].Transitions = append(sets[i].Transitions, transition)

	return sets
}

func indexForChannel(sets []Set, channel channel.Channel) int {
	for i, s := range sets {
		if s.IsForChannel(channel) {
			return i
		}
	}

	return -1
}
''')),
#13
ok('C26', fn(S+'transition/set.go', 'func AddToAggregateSets', '''
func AddToAggregateSets(aggs []AggregateSet, stateID testlang.NodeID, set Set) []AggregateSet {
	for _, agg := range aggs {
		if agg.IsForChannel(set.Channel) {
			agg.States[stateID] = append(agg.States[stateID], set.Transitions...)

			return aggs
		}
	}

	states := StateMap{}
	states[stateID] = set.Transitions

	return append(aggs, NewAggregateSet(set.Channel, states))
}
''')),
#14
ok('C07', fn(S+'verdict/verdict.go', 'func (v *Verdict) Tests', '''
func (v *Verdict) Tests() []string {
	var (
		tests = make([]string, len(*v))
		i     int
	)

	for name := range *v {
		tests[i] = name
		i++
	}

	sort.Strings(tests)

	return tests
}
''')),
#15
ok('C07', fn(S+'verdict/verdict.go', 'func (v *Verdict) Is(', '''
func (v *Verdict) Is(status testlang.Outcome) bool {
	found := false

	for _, s := range *v {
		found = found || s == status
	}

	return found
}
''')),
#16
ok('C10', fn(S+'verdict/verdict.go', 'func (v *Verdict) UnmarshalJSON', '''
func (v *Verdict) UnmarshalJSON(bs []byte) error {
	var raw map[string]string
	if err := json.Unmarshal(bs, &raw); err != nil {
		return fmt.Errorf("couldn't unmarshal verdict set: %w", err)
	}

	parsed := make(Verdict, len(raw))

	for test, text := range raw {
		outcome, err := parseOutcome(text)
		if err != nil {
			return err
		}

		parsed[test] = outcome
	}

	*v = parsed

	return nil
}

func parseOutcome(text string) (testlang.Outcome, error) {
	var outcome testlang.Outcome
	if err := outcome.UnmarshalText([]byte(text)); err != nil {
		return outcome, fmt.Errorf("couldn't unmarshal status %q: %w", text, err)
	}

	return outcome, nil
}
''')),
#17
ok('C07', fn(S+'state.go', 'func (s *State) HasIn', '''
func (s *State) HasIn() bool {
	for i := range s.TransitionSets {
		if s.TransitionSets[i].Channel.IsIn() {
			return true
		}
	}

	return false
}
''')),
#18
ok('C05', fn(C+'map.go', 'func TryOverMapValues', '''
func TryOverMapValues[K comparable, T, U any](input map[K]T, mapper func(T) (U, error)) (map[K]U, error) {
	var err error

	result := make(map[K]U, len(input))

	for key := range input {
		if result[key], err = mapper(input[key]); err != nil {
			return nil, err
		}
	}

	return result, nil
}
''')),
#19
ok('C10', fn(C+'set.go', 'func (s *Set[T]) Values', '''
func (s *Set[T]) Values() []T {
	var values []T = make([]T, 0, len(s.contents))

	for k := range s.contents {
		if !s.contents[k] {
			continue
		}

		values = append(values, k)
	}

	byText := func(i, j int) bool {
		left, right := fmt.Sprint(values[i]), fmt.Sprint(values[j])

		return left < right
	}
	sort.Slice(values, byText)

	return values
}
''')),
#20
ok('C10', fn(C+'set.go', 'func (s *Set[T]) UnmarshalJSON', '''
func (s *Set[T]) UnmarshalJSON(bytes []byte) error {
	var values []T

	err := json.Unmarshal(bytes, &values)
	if err != nil {
		return fmt.Errorf("couldn't unmarshal values for set: %w", err)
	}

	*s = NewSet(values...)

	return nil
}
''')),
#21
ok('C09', fn(L+'value/value.go', 'func (v *Value) UnmarshalText', '''
func (v *Value) UnmarshalText(text []byte) error {
	text = bytes.TrimSpace(text)

	num := IntValue(0)
	if v.content = tryUnmarshal(&num, text); v.content != nil {
		return nil
	}

	enum := EnumValue("")
	if v.content = tryUnmarshal(&enum, text); v.content != nil {
		return nil
	}

	return fmt.Errorf("%w: input %q", ErrUnsupportedValueType, string(text))
}
''')),
#22
ok('C28', fn(L+'value/value.go', 'func (v *Value) Equals', '''
func (v *Value) Equals(other Value) bool {
	switch {
	case v.IsEmpty() && other.IsEmpty():
		return true
	case v.IsEmpty() || other.IsEmpty():
		return false
	default:
		return reflect.DeepEqual(v.content, other.content)
	}
}
''')),
#23
ok('C08', fn(L+'rstype/unify.go', 'func Unify', '''
func Unify(lhs, rhs *RsType) (*RsType, error) {
	if lhs == nil {
		return rhs, nil
	}

	if rhs == nil {
		return lhs, nil
	}

	if lhs.kind != rhs.kind {
		return nil, fmt.Errorf("%w: %s and %s", ErrUnifyDifferentKinds, lhs, rhs)
	}

	if lhs.kind != KindArithmos {
		return lhs, nil
	}

	domain := MaxDomain(lhs.arithmosDomain, rhs.arithmosDomain)

	return Arithmos(domain), nil
}
''')),
#24
ok('C08', fn(L+'rstype/rstype.go', 'func (t *RsType) IsArithmos', '''
func (t *RsType) IsArithmos(domain ArithmosDomain) bool {
	return t.kind == KindArithmos && t.arithmosDomain == domain
}
''')),
#25
ok('C09', fn(L+'rstype/rstype.go', 'func (t *RsType) UnmarshalText', '''
func (t *RsType) UnmarshalText(text []byte) error {
	kind, domain, err := parseName(string(bytes.ToLower(text)))
	t.kind = kind
	t.arithmosDomain = domain

	return err
}

func parseName(name string) (Kind, ArithmosDomain, error) {
	switch name {
	case "()":
		return KindEmpty, ArithmosDomainUnknown, nil
	case "enum":
		return KindEnum, ArithmosDomainUnknown, nil
	case "nat":
		return KindArithmos, ArithmosDomainNat, nil
	case "int":
		return KindArithmos, ArithmosDomainInt, nil
	case "real":
		return KindArithmos, ArithmosDomainReal, nil
	}

	return KindEmpty, ArithmosDomainUnknown, TypeUnmarshalError{TypeName: name}
}
''')),
#26
ok('C05', fn(V+'node.go', 'func Node(', '''
func Node(node *testlang.Node) error {
	if len(node.Tests) == 0 {
		return ErrNoTests
	}

	if node.Outcome == testlang.OutcomeUnset {
		return ErrNoOutcome
	}

	if node.Outcome == testlang.OutcomeFail {
		return failNode(node)
	}

	if node.Outcome != testlang.OutcomePass && node.Outcome != testlang.OutcomeInc {
		return fmt.Errorf("%w: %s", ErrBadOutcome, node.Outcome)
	}

	if node.Outcome == testlang.OutcomePass {
		if err := passNode(node); err != nil {
			return err
		}
	}

	return nonFailNode(node)
}
''')),
#27
ok('C05', fn(V+'validate.go', 'func Full(', '''
func Full(root *testlang.Node) (*Test, error) {
	if root == nil {
		return nil, ErrNoRoot
	}

	check := func(node *testlang.Node) error {
		validator := Node
		if node == root {
			validator = Root
		}

		if err := validator(node); err != nil {
			return fmt.Errorf("invalid node %q: %w", node, err)
		}

		return nil
	}

	if err := testlang.Walk(root, check); err != nil {
		return nil, fmt.Errorf("failed to validate test: %w", err)
	}

	return &Test{root: root}, nil
}
''')),
#28
ok('C05', fn(V+'suite.go', 'func FullSuite', '''
func FullSuite(suite testlang.Suite) (Suite, error) {
	validated := make(Suite, len(suite))

	for name, root := range suite {
		test, err := Full(root)
		if err != nil {
			return nil, fmt.Errorf("couldn't validate suite: %w", err)
		}

		validated[name] = test
	}

	return validated, nil
}
''')),
#29
ok('C24', fn(G+'gen.go', 'func initCpp(', '''
func initCpp(cfgs []cfg.Config, dirs gencommon.DirSet) ([]subgen.Subgenerator, error) {
	var subs []subgen.Subgenerator

	for i := range cfgs {
		config := &cfgs[i]
		subdir := dirs.Subdir(config.Variant.String())

		varSubs, err := initCppVariant(config, subdir)
		if err != nil {
			return nil, err
		}

		subs = append(subs, varSubs...)
	}

	return subs, nil
}
''')),
#30 main, catkin and makefile unrolled
ok('C24', fn(G+'gen.go', 'func initCppVariant', '''
func initCppVariant(config *cfg.Config, dirs gencommon.DirSet) ([]subgen.Subgenerator, error) {
	subs, err := initCppMain(config, dirs)
	if err != nil {
		return nil, err
	}

	catkinSubs, err := initCppCatkin(config, dirs)
	if err != nil {
		return nil, err
	}

	makefileSubs, err := initCppMakefile(config, dirs)
	if err != nil {
		return nil, err
	}

	subs = append(subs, catkinSubs...)

	return append(subs, makefileSubs...), nil
}
''')),
#31
ok('C14', fn(G+'gen.go', 'func (o *OnSuite) Generate', '''
func (o *OnSuite) Generate() error {
	for _, step := range []func() error{o.checkNames, o.mkdirs, o.runSubgens} {
		if err := step(); err != nil {
			return err
		}
	}

	return nil
}
''')),
#32
ok('C13', fn(G+'gen.go', 'func (o *OnSuite) mkdirs', '''
func (o *OnSuite) mkdirs() error {
	for _, subg := range o.subgens {
		if err := mkdirsFor(subg); err != nil {
			return err
		}
	}

	return nil
}

func mkdirsFor(subg subgen.OnSuite) error {
	for _, dir := range subg.Dirs() {
		err := os.MkdirAll(dir, outputDirPerms)
		if err != nil {
			return fmt.Errorf("couldn't make %s directory at %q: %w", subg.Parent().Name(), dir, err)
		}
	}

	return nil
}
''')),
#33
ok('C24', fn(G+'gen.go', 'func (g *Generator) OnSuite', '''
func (g *Generator) OnSuite(suite *stm.Suite) *OnSuite {
	on := OnSuite{parent: g, suite: suite}

	for _, sub := range g.subgens {
		on.subgens = append(on.subgens, sub.OnSuite(suite))
	}

	return &on
}
''')),
#34
ok('C13', fn(G+'cpp/cpp.go', 'func (o *OnSuite) Dirs', '''
func (o *OnSuite) Dirs() []string {
	src := o.parent.srcDirSet
	dirs := []string{src.OutputPath(preludeDir)}

	if o.cctx.HasConversion {
		dirs = append(dirs, src.OutputPath(convertDir))
	}

	for name := range o.suite.Tests {
		test := src.Subdir(name)
		dirs = append(dirs, test.OutputPath("include"), test.OutputPath("src"))
	}

	return dirs
}
''')),
#35
ok('C14', fn(G+'cpp/cpp.go', 'func (o *OnSuite) generateCommon', '''
func (o *OnSuite) generateCommon() error {
	if o.cctx.HasConversion {
		if err := copyLocalFile(o.parent.srcDirSet.Subdir(convertDir), "convert.cpp"); err != nil {
			return err
		}
	}

	err := o.parent.templated.common.Generate(o.parent.srcDirSet.Output, o.cctx)
	if err != nil {
		return fmt.Errorf("generating common files: %w", err)
	}

	return nil
}
''')),
#36
ok('C14', fn(G+'cpp/copy.go', 'func (g *Generator) copyPrelude()', '''
func (g *Generator) copyPrelude() error {
	ents, err := fs.ReadDir(prelude, preludeMount)
	if err != nil {
		return fmt.Errorf("couldn't find prelude in embedded files: %w", err)
	}

	for i := 0; i < len(ents); i++ {
		name := ents[i].Name()
		if err = g.copyPreludeFile(name); err != nil {
			return err
		}
	}

	return nil
}
''')),
#37
ok('C14', fn(G+'cpp/copy.go', 'func writeFile', '''
func writeFile(src io.ReadCloser, outFile string) error {
	dst, err := os.Create(outFile)
	if err != nil {
		return errors.Join(fmt.Errorf("couldn't create dest file: %w", err), src.Close())
	}

	_, copyErr := io.Copy(dst, src)
	if copyErr != nil {
		copyErr = fmt.Errorf("couldn't copy file %q: %w", outFile, copyErr)
	}

	dstErr := dst.Close()
	srcErr := src.Close()

	return errors.Join(copyErr, dstErr, srcErr)
}
''')),
#38
ok('C14', fn(G+'cpp/copy.go', 'func writeFile', '''
func writeFile(src io.ReadCloser, outFile string) (err error) {
	defer func() {
		err = errors.Join(err, src.Close())
	}()

	dst, err := os.Create(outFile)
	if err != nil {
		return fmt.Errorf("couldn't create dest file: %w", err)
	}

	defer func() {
		err = errors.Join(err, dst.Close())
	}()

	if _, err = io.Copy(dst, src); err != nil {
		return fmt.Errorf("couldn't copy file %q: %w", outFile, err)
	}

	return nil
}
''')),
#39
ok('C15', fn(G+'cpp/template.go', 'func variantFS', '''
func variantFS(variant cfg.Variant) fs.FS {
	if variant == cfg.VariantAnimate {
		return animateTemplates
	}

	if variant == cfg.VariantRos {
		return rosTemplates
	}

	return nil
}
''')),
#40
ok('C25', fn(G+'catkin/catkin.go', 'func New(', '''
func New(cppConfig *cpp.Config, dirs gencommon.DirSet) (*Generator, error) {
	tg, err := NewTemplatedGenerator()
	if err != nil {
		return nil, err
	}

	gen := &Generator{cpp: *cppConfig, srcDirSet: dirs.Subdir("src"), cmakeGen: tg}

	if cppConfig.Catkin != nil {
		gen.config = *cppConfig.Catkin
	}

	if gen.config.Package == nil {
		gen.config.Package = &cfg.Package{}
	}

	gen.config.Package.Autofill()

	return gen, nil
}
''')),
#41
ok('C25', fn(G+'catkin/catkin.go', 'func generatePackageXML', '''
func generatePackageXML(dir string, pkg cfg.Package) (err error) {
	path := filepath.Join(dir, "package.xml")

	file, err := os.Create(path)
	if err != nil {
		return fmt.Errorf("couldn't create package.xml: %w", err)
	}

	defer func() {
		err = errors.Join(err, file.Close())
	}()

	return pkg.Write(file)
}
''')),
#42
ok('C18', fn(G+'makefile/makefile.go', 'func (o *OnSuite) Generate', '''
func (o *OnSuite) Generate() error {
	gen := o.parent
	ctx := &Context{Tests: o.suite.Tests, Context: o.cctx}

	if err := templating.CreateFile(filepath.Join(gen.outputDir, "Makefile"), "Makefile.tmpl", gen.template, ctx); err != nil {
		return fmt.Errorf("couldn't generate Makefile: %w", err)
	}

	return nil
}
''')),
#43
ok('C21', fn('internal/cli/cli.go', 'func OpenFileOrStdin', '''
func OpenFileOrStdin(path string) (io.ReadCloser, error) {
	switch path {
	case stdinPath:
		return os.Stdin, nil
	default:
		file, err := os.Open(path)
		if err != nil {
			return nil, fmt.Errorf("when opening file %q: %w", path, err)
		}

		return file, nil
	}
}
''')),
#44
ok('C23', fn('internal/cli/cli.go', 'func HandleError', '''
func HandleError(err error, usage func()) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)

		if errors.Is(err, ErrBadArgs) {
			usage()
		}

		os.Exit(1)
	}
}
''')),
#45
ok('C10', fn('internal/serial/serial.go', 'func WriteJSON', '''
func WriteJSON(writer io.Writer, value any) error {
	enc := json.NewEncoder(writer)
	enc.SetIndent("", "\\t")

	err := enc.Encode(value)
	if err == nil {
		return nil
	}

	return fmt.Errorf("JSON write error: %w", err)
}
''')),
#46
ok('C27', fn(G+'config/cpp/context.go', 'func (c *Config) Process', '''
func (c *Config) Process(types stm.TypeMap) Context {
	overrides := c.ChannelMap()
	channels := make(map[string]ChannelType, len(types))
	converts := false

	for name, base := range types {
		override, found := overrides[name]
		converts = converts || found
		channels[name] = ChannelType{Base: base, Override: override}
	}

	return Context{Includes: c.Includes, ChannelTypes: channels, HasConversion: converts}
}
''')),
#47
ok('C27', fn(G+'config/cpp/cpp.go', 'func (c *Config) ChannelMap', '''
func (c *Config) ChannelMap() map[string]string {
	overrides := map[string]string{}

	for i := range c.Channels {
		ch := &c.Channels[i]
		overrides[ch.Name] = ch.Type
	}

	return overrides
}
''')),
#48
ok('C12', fn('cmd/rtcg-gen/main.go', 'func (a *genAction) run', '''
func (a *genAction) run() error {
	a.normalisePaths()

	suite, err := a.readSuite()
	if err != nil {
		return fmt.Errorf("couldn't read state machine suite: %w", err)
	}

	return a.generate(suite)
}

func (a *genAction) normalisePaths() {
	a.configFile = filepath.Clean(a.configFile)
	a.outputDir = filepath.Clean(a.outputDir)
}
''')),
#49
ok('C21', fn('cmd/rtcg-gen/main.go', 'func (a *genAction) readSuite', '''
func (a *genAction) readSuite() (suite *stm.Suite, err error) {
	file, err := cli.OpenFileOrStdin(a.inputFile)
	if err != nil {
		return nil, fmt.Errorf("couldn't open input: %w", err)
	}

	defer func() {
		err = errors.Join(err, file.Close())
	}()

	return stm.ReadSuite(file)
}
''')),
#50
ok('C26', fn(G+'gencommon/context.go', 'func (c *TransitionContext) populateFilters', '''
func (c *TransitionContext) populateFilters() {
	for i := range c.All {
		agg := c.All[i]
		c.Channels = append(c.Channels, agg.Channel)

		if !agg.Channel.IsIn() {
			c.Out = append(c.Out, agg)

			continue
		}

		c.addInput(agg)
	}
}
''')),
#51
ok('C26', fn(G+'gencommon/context.go', 'func firstStateHasIn', '''
func firstStateHasIn(machine *stm.Stm) bool {
	return len(machine.States) > 0 && machine.States[0].HasIn()
}
''')),
#52
ok('C11', fn('cmd/rtcg-make-stms/main.go', 'func (a *makeStmAction) run', '''
func (a *makeStmAction) run() error {
	tests, err := a.readSuite()
	if err != nil {
		return fmt.Errorf("couldn't read test suite: %w", err)
	}

	valid, err := validate.FullSuite(tests)
	if err != nil {
		return fmt.Errorf("malformed test suite: %w", err)
	}

	machines, err := a.buildStms(valid)
	if err != nil {
		return fmt.Errorf("couldn't build stms for test suite: %w", err)
	}

	return writeStms(machines)
}

func writeStms(machines *stm.Suite) error {
	err := machines.Write(os.Stdout)
	if err != nil {
		return fmt.Errorf("couldn't write state machines: %w", err)
	}

	return nil
}
''')),
#53
ok('C06', fn(S+'state.go', 'func (s *State) addTransitionToNode', '''
func (s *State) addTransitionToNode(node *testlang.Node) {
	if node.Outcome != testlang.OutcomeFail {
		if node.ID == "" {
			panic("should have assigned an ID to node")
		}

		event := node.Event
		s.TransitionSets = transition.AddToSets(
			s.TransitionSets,
			event.Channel,
			transition.Transition{Value: event.Value, Next: node.ID},
		)
	}
}
''')),
#54
ok('C16', fn(G+'cpp/cpp.go', 'func (o *OnSuite) generateTest(', '''
func (o *OnSuite) generateTest(dirs gencommon.DirSet, name string, test *stm.Stm) error {
	gen := o.parent.templated.testSpecific

	err := gen.Generate(dirs.Output, NewContext(name, test, o.cctx))
	if err != nil {
		return fmt.Errorf("generating test-specific files: %w", err)
	}

	return nil
}
''')),
]
CASES += [
#55
ok('C34', fn(F, 'func SpineNodes', '''
func SpineNodes(tests map[string]trace.Forbidden, after trace.Trace) []testlang.Node {
	var (
		last        = lastEvent(after)
		ins, others []testlang.Node
	)

	for _, failure := range Failures(tests, after) {
		if node := failure.Node(); failure.Event.Channel.IsIn() {
			ins = append(ins, node)
		} else {
			others = append(others, node)
		}
	}

	spines := make([]testlang.Node, len(ins), len(ins)+1)
	for i := range ins {
		spines[i] = testlang.Inc(last, ins[i])
	}

	return append(spines, testlang.Inc(last, others...))
}
''')),
#56
ok('C34', fn(F, 'func SpineNodes', '''
func SpineNodes(tests map[string]trace.Forbidden, after trace.Trace) []testlang.Node {
	last := lastEvent(after)
	failures := Failures(tests, after)

	return append(inputSpines(failures, last), outputSpine(failures, last))
}

func inputSpines(failures []Failure, last testlang.Event) (spines []testlang.Node) {
	for _, f := range failures {
		if f.Event.Channel.IsIn() {
			spines = append(spines, testlang.Inc(last, f.Node()))
		}
	}

	return spines
}

func outputSpine(failures []Failure, last testlang.Event) testlang.Node {
	var outputs []testlang.Node

	for _, f := range failures {
		if !f.Event.Channel.IsIn() {
			outputs = append(outputs, f.Node())
		}
	}

	return testlang.Inc(last, outputs...)
}
''')),
]
