# More functions that the other files leave alone: programs, language, sets.
G='internal/gen/'; T='internal/testlang/'; S='internal/stm/'
ok=lambda i,*e:(i,'ok',list(e)); bug=lambda i,*e:(i,'bug',list(e))
M='cmd/rtcg-make-stms/main.go'; R='cmd/rtcg-read-traces/main.go'; N='cmd/rtcg-gen/main.go'
CASES=[
 ok('C23',(M,'''	var (
		action makeStmAction
		err    error
	)

	action.inputFile, err = cli.ParseFileArgument(argv, numAnonymousArgs+1)
	if err != nil {
		return nil, fmt.Errorf("couldn't parse args: %w", err)
	}

	return &action, nil''','''	inputFile, err := cli.ParseFileArgument(argv, numAnonymousArgs+1)
	if err != nil {
		return nil, fmt.Errorf("couldn't parse args: %w", err)
	}

	return &makeStmAction{inputFile: inputFile}, nil''')),
 ok('C11',(M,'''	suite, err := testlang.ReadSuite(file)

	return suite, errors.Join(err, file.Close())''','''	suite, readErr := testlang.ReadSuite(file)
	closeErr := file.Close()

	return suite, errors.Join(readErr, closeErr)''')),
 ok('C22',(M,'''	suite, err := testlang.ReadSuite(file)

	return suite, errors.Join(err, file.Close())''','''	suite, err := testlang.ReadSuite(file)
	if closeErr := file.Close(); err == nil {
		err = closeErr
	}

	return suite, err''')),
 ok('C22',(M,'''	file, err := cli.OpenFileOrStdin(a.inputFile)
	if err != nil {
		return nil, fmt.Errorf("couldn't open input: %w", err)
	}

	suite, err := testlang.ReadSuite(file)

	return suite, errors.Join(err, file.Close())''','''	file, err := cli.OpenFileOrStdin(a.inputFile)
	if err != nil {
		return nil, fmt.Errorf("couldn't open input: %w", err)
	}

	defer file.Close()

	return testlang.ReadSuite(file)''')),
 ok('C05',(M,'''	s, err := a.readSuite()
	if err != nil {
		return fmt.Errorf("couldn't read test suite: %w", err)
	}

	vs, err := validate.FullSuite(s)
	if err != nil {
		return fmt.Errorf("malformed test suite: %w", err)
	}
''','''	vs, err := a.validSuite()
	if err != nil {
		return err
	}
'''),(M,'func (a *makeStmAction) buildStms(','''func (a *makeStmAction) validSuite() (validate.Suite, error) {
	s, err := a.readSuite()
	if err != nil {
		return nil, fmt.Errorf("couldn't read test suite: %w", err)
	}

	vs, err := validate.FullSuite(s)
	if err != nil {
		return nil, fmt.Errorf("malformed test suite: %w", err)
	}

	return vs, nil
}

func (a *makeStmAction) buildStms(''')),
 ok('C11',(R,'''	suite := trace.ExpandAll(trace.Name(traces))

	if err := suite.Write(os.Stdout); err != nil {
		return fmt.Errorf("couldn't write expanded traces: %w", err)
	}

	return nil''','''	return writeSuite(traces)'''),(R,'func readTraces(','''func writeSuite(traces []trace.Forbidden) error {
	named := trace.Name(traces)
	suite := trace.ExpandAll(named)

	err := suite.Write(os.Stdout)
	if err != nil {
		err = fmt.Errorf("couldn't write expanded traces: %w", err)
	}

	return err
}

func readTraces(''')),
 ok('C23',(N,'	cli.HandleError(run(), usage)','	if err := run(); err != nil {\n		cli.HandleError(err, usage)\n	}')),
 ok('C23',(N,'''	var (
		action genAction
		err    error
	)

	flag.BoolVar(&action.clean, "clean", false, "remove output directory before generating")
	flag.StringVar(&action.outputDir, "output", "out", "output directory")
	flag.Usage = usage
	flag.Parse()

	argv := flag.Args()

	action.inputFile, err = cli.ParseFileArgument(argv, numAnonymousArgs)
	if err != nil {
		return nil, fmt.Errorf("couldn't parse args: %w", err)
	}

	// Parse this after action.inputFile so that we get an error if argv is empty
	action.configFile = argv[0]

	return &action, nil''','''	flag.Usage = usage

	output := flag.String("output", "out", "output directory")
	clean := flag.Bool("clean", false, "remove output directory before generating")

	flag.Parse()

	inputFile, err := cli.ParseFileArgument(flag.Args(), numAnonymousArgs)
	if err != nil {
		return nil, fmt.Errorf("couldn't parse args: %w", err)
	}

	return &genAction{
		clean:      *clean,
		outputDir:  *output,
		configFile: flag.Arg(0),
		inputFile:  inputFile,
	}, nil''')),
 ok('C12',(N,'''	if !a.clean {
		return nil
	}

	if contains''','''	if a.clean {
		return a.cleanOutput(inputs)
	}

	return nil
}

func (a *genAction) cleanOutput(inputs []string) error {
	if contains''')),
 ok('C12',(N,'''	rel, err := filepath.Rel(absDir, absPath)

	return err == nil && filepath.IsLocal(rel), nil''','''	rel, err := filepath.Rel(absDir, absPath)
	if err != nil {
		return false, nil
	}

	return filepath.IsLocal(rel), nil''')),
 ok('C12',(N,'''	if contains, err := dirContains(a.outputDir, "."); contains || err != nil {
		return errors.Join(err, ErrCleanDot)
	}
''','''	contains, err := dirContains(a.outputDir, ".")
	if err != nil {
		return err
	}

	if contains {
		return ErrCleanDot
	}
''')),
 ok('C12',(N,'''	g, err := gen.New(*cfg, a.outputDir) // for now
	if err != nil {
		return fmt.Errorf("couldn't create generator: %w", err)
	}

	// Don't throw away the previous output until we know that we can replace it.
	if err := a.maybeClean(a.configFile, a.inputFile, cfg.Directory); err != nil {
		return err
	}

	if err := g.OnSuite(suite).Generate(); err != nil {
		return fmt.Errorf("couldn't generate: %w", err)
	}

	return nil''','''	g, err := gen.New(*cfg, a.outputDir)
	if err != nil {
		return fmt.Errorf("couldn't create generator: %w", err)
	}

	onSuite := g.OnSuite(suite)
	inputs := []string{a.configFile, a.inputFile, cfg.Directory}

	if err = a.maybeClean(inputs...); err != nil {
		return err
	}

	if err = onSuite.Generate(); err != nil {
		return fmt.Errorf("couldn't generate: %w", err)
	}

	return nil''')),
 ok('C23',('internal/cli/cli.go','''	switch len(args) {
	case maxArgs:
		// Last argument is the file.
		return args[maxArgs-1], nil
	case maxArgs - 1:
		// Missing file argument, try stdin.
		return stdinPath, nil
	default:
		return "", ErrBadArgs
	}''','''	if n := len(args); n == maxArgs {
		return args[n-1], nil
	} else if n != maxArgs-1 {
		return "", ErrBadArgs
	}

	return stdinPath, nil''')),
 ok('C11',('internal/cli/cli.go','''	if err == nil {
		return
	}

	_, _ = fmt.Fprintln(os.Stderr, err)

	if errors.Is(err, ErrBadArgs) {
		usage()
	}

	os.Exit(1)''','''	if err != nil {
		fmt.Fprintf(os.Stderr, "%v\\n", err)

		if errors.Is(err, ErrBadArgs) {
			usage()
		}

		os.Exit(1)
	}''')),
 ok('C10',(T+'testlang.go','''	var suite Suite

	if err := serial.ReadJSON(r, &suite); err != nil {
		return nil, fmt.Errorf("couldn't read test suite: %w", err)
	}

	return suite, nil''','''	suite := make(Suite)

	err := serial.ReadJSON(r, &suite)
	if err != nil {
		return nil, fmt.Errorf("couldn't read test suite: %w", err)
	}

	return suite, nil''')),
 ok('C03',(T+'node.go','	return Node{ID: "", Tests: nil, Outcome: outcome, Event: event, Next: next}','	var node Node\n	node.Outcome, node.Event, node.Next = outcome, event, next\n\n	return node')),
 ok('C03',(T+'node.go','''	fail := Fail()
	fail.Mark(tests...)

	pass := Pass(event, fail)
	pass.Mark(tests...)

	return pass''','''	fail := Node{Tests: tests, Outcome: OutcomeFail}

	return Node{Tests: tests, Outcome: OutcomePass, Event: &event, Next: []Node{fail}}''')),
 ok('C03',(T+'walk.go','''	_ = Walk(node, func(node *Node) error {
		node.Mark(tests...)

		return nil
	})''','''	mark := func(n *Node) error {
		n.Tests = tests

		return nil
	}

	_ = Walk(node, mark)''')),
 ok('C05',(T+'walk.go','''		for i := len(node.Next) - 1; 0 <= i; i-- {
			stack.Push(&node.Next[i])
		}''','''		for i := range node.Next {
			stack.Push(&node.Next[len(node.Next)-1-i])
		}''')),
 ok('C28',('internal/trace/trace.go','	return len(t) == len(other) && t.IsPrefixOf(other)','	return t.IsPrefixOf(other) && other.IsPrefixOf(t)')),
 ok('C28',('internal/trace/trace.go','''	return len(t) == len(other) && t.IsPrefixOf(other)''','''	if len(t) != len(other) {
		return false
	}

	for i := range t {
		if !t[i].Equals(other[i]) {
			return false
		}
	}

	return true''')),
 ok('C02',('internal/trace/trace.go','''	switch {
	case base == "test":
		return fmt.Sprintf("%s%d", base, attempt)
	case 0 < attempt:
		return fmt.Sprintf("%s%d", base, attempt-1)
	default:
		return base
	}''','''	if base != "test" {
		if attempt == 0 {
			return base
		}

		attempt--
	}

	return base + strconv.Itoa(attempt)''')),
 ok('C02',('internal/trace/trace.go','''	for i := 0; ; i++ {
		name := synthesiseName(base, i)

		if _, ok := result[name]; !ok {
			result[name] = trace

			return
		}
	}''','''	attempt := 0
	name := synthesiseName(base, attempt)

	for {
		if _, taken := result[name]; !taken {
			break
		}

		attempt++
		name = synthesiseName(base, attempt)
	}

	result[name] = trace''')),
 ok('C04',('internal/trace/collapse.go','''	for done, pos := false, 1; !done; pos++ {
		if test, err = validate.OneNext(test); err != nil {
			return collapsed, fmt.Errorf("couldn't get node %d: %w", pos, err)
		}

		if err := validate.Node(test); err != nil {
			return collapsed, fmt.Errorf("node %d failed verification: %w", pos, err)
		}

		if done, err = collapseNode(&collapsed, test, pos); err != nil {
			return collapsed, err
		}
	}

	return collapsed, nil''','''	for pos := 1; ; pos++ {
		if test, err = validate.OneNext(test); err != nil {
			return collapsed, fmt.Errorf("couldn't get node %d: %w", pos, err)
		}

		if err := validate.Node(test); err != nil {
			return collapsed, fmt.Errorf("node %d failed verification: %w", pos, err)
		}

		done, err := collapseNode(&collapsed, test, pos)
		if done || err != nil {
			return collapsed, err
		}
	}''')),
 ok('C05',('internal/validate/node.go','''	switch node.Outcome {
	case testlang.OutcomeUnset:
		return ErrNoOutcome
	case testlang.OutcomeFail:
		return failNode(node)
	case testlang.OutcomePass:
		if err := passNode(node); err != nil {
			return err
		}

		fallthrough
	case testlang.OutcomeInc:
		return nonFailNode(node)
	default:
		return fmt.Errorf("%w: %s", ErrBadOutcome, node.Outcome)
	}''','''	if node.Outcome == testlang.OutcomeUnset {
		return ErrNoOutcome
	}

	if node.Outcome == testlang.OutcomeFail {
		return failNode(node)
	}

	if node.Outcome == testlang.OutcomePass {
		if err := passNode(node); err != nil {
			return err
		}
	} else if node.Outcome != testlang.OutcomeInc {
		return fmt.Errorf("%w: %s", ErrBadOutcome, node.Outcome)
	}

	return nonFailNode(node)''')),
 ok('C05',('internal/validate/validate.go','''		var err error

		if node == root {
			err = Root(node)
		} else {
			err = Node(node)
		}

		if err != nil {
			return fmt.Errorf("invalid node %q: %w", node, err)
		}

		return nil''','''		check := Node
		if node == root {
			check = Root
		}

		if err := check(node); err != nil {
			return fmt.Errorf("invalid node %q: %w", node, err)
		}

		return nil''')),
 ok('C08',(T+'rstype/arithmos.go','''	if lhs <= rhs {
		return rhs
	}

	return lhs''','''	max := lhs
	if rhs > max {
		max = rhs
	}

	return max''')),
 ok('C08',(T+'rstype/rstype.go','''	if t.kind != KindArithmos {
		return false
	}

	return t.arithmosDomain == domain''','''	return t.kind == KindArithmos && t.arithmosDomain == domain''')),
 ok('C09',(T+'rstype/rstype.go','''	t.kind = KindEmpty
	t.arithmosDomain = ArithmosDomainUnknown

	// TODO: factor into primitive and non-primitive types
	typeStr := string(bytes.ToLower(text))
	switch typeStr {
	case "()":
		t.kind = KindEmpty
	case "enum":
		t.kind = KindEnum
	case "nat":
		t.kind = KindArithmos
		t.arithmosDomain = ArithmosDomainNat
	case "int":
		t.kind = KindArithmos
		t.arithmosDomain = ArithmosDomainInt
	case "real":
		t.kind = KindArithmos
		t.arithmosDomain = ArithmosDomainReal
	default:''','''	typeStr := strings.ToLower(string(text))
	switch typeStr {
	case "()":
		*t = *Empty()
	case "enum":
		*t = *Enum()
	case "nat":
		*t = *Arithmos(ArithmosDomainNat)
	case "int":
		*t = *Arithmos(ArithmosDomainInt)
	case "real":
		*t = *Arithmos(ArithmosDomainReal)
	default:
		*t = *Empty()
''')),
 ok('C07',(S+'verdict/verdict.go','''	for _, s := range *v {
		if s == status {
			return true
		}
	}

	return false''','''	found := false

	for _, s := range *v {
		found = found || s == status
	}

	return found''')),
 ok('C07',(S+'verdict/verdict.go','	return v.Is(testlang.OutcomeFail)','	for _, outcome := range *v {\n		if outcome == testlang.OutcomeFail {\n			return true\n		}\n	}\n\n	return false')),
 ok('C07',('internal/structure/set.go','''	result := Set[T]{contents: map[T]bool{}}
	result.Add(values...)

	return result''','''	var result Set[T]

	result.contents = make(map[T]bool, len(values))
	for _, v := range values {
		result.contents[v] = true
	}

	return result''')),
 ok('C10',('internal/structure/set.go','''	s.contents = map[T]bool{}

	s.Add(values...)

	return nil''','''	*s = NewSet(values...)

	return nil''')),
 ok('C26',(S+'transition/set.go','''	return append(aggs, NewAggregateSet(set.Channel, map[testlang.NodeID][]Transition{stateID: set.Transitions}))''','''	var agg AggregateSet
	agg.Channel = set.Channel
	agg.States = StateMap{stateID: set.Transitions}

	return append(aggs, agg)''')),
 ok('C06',(S+'transition/set.go','''	for i := range sets {
		if ts := &sets[i]; ts.IsForChannel(channel) {
			ts.Transitions = append(ts.Transitions, transition)

			return sets
		}
	}
	// No transition set with this channel exists yet.
	return append(sets, NewSet(channel, transition))''','''	at := indexOf(sets, channel)
	if at < 0 {
		return append(sets, NewSet(channel, transition))
	}

	sets[at].Transitions = append(sets[at].Transitions, transition)

	return sets'''),(S+'transition/set.go','func (t Set) String() string {','''func indexOf(sets []Set, channel channel.Channel) int {
	for i := range sets {
		if sets[i].IsForChannel(channel) {
			return i
		}
	}

	return -1
}

func (t Set) String() string {''')),
 ok('C09',(T+'outcome_enum.go','''	if x, ok := _OutcomeValue[name]; ok {
		return x, nil
	}
	// Case''','''	for outcome, text := range _OutcomeMap {
		if strings.EqualFold(text, name) {
			return outcome, nil
		}
	}
	// Case''')),
]
