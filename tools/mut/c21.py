READ='internal/trace/read.go'; V='internal/validate/validate.go'; VN='internal/validate/node.go'; STS='internal/stm/suite.go'; B='internal/stm/builder.go'; ST='internal/stm/state.go'
CTX='internal/gen/gencommon/context.go'; K='internal/gen/catkin/catkin.go'; CLI='internal/cli/cli.go'; CH='internal/testlang/channel/channel.go'; VAL='internal/testlang/value/value.go'; SET='internal/structure/set.go'
TS='internal/stm/transition/set.go'; VD='internal/stm/verdict/verdict.go'; GEN='internal/gen/gen.go'; U='internal/testlang/rstype/unify.go'; NAME='internal/trace/trace.go'; EXP='internal/trace/expand.go'; MK='internal/gen/makefile/makefile.go'; CPP='internal/gen/cpp/cpp.go'
MG='cmd/rtcg-gen/main.go'; MS='cmd/rtcg-make-stms/main.go'; W='internal/testlang/walk.go'; STK='internal/structure/stack.go'; STR='internal/strmanip/strmanip.go'; TPL='internal/gen/cpp/template.go'; COL='internal/trace/collapse.go'; NODE='internal/testlang/node.go'; STM='internal/stm/stm.go'
CASES=[
('C21','bug',[(V,'''	if root == nil {
		return nil, ErrNoRoot
	}

''','')]),
('C21','bug',[(V,'''	if root == nil {
		return nil, ErrNoRoot
	}
''','''	if root == nil {
		return nil, nil
	}
''')]),
('C21','bug',[(STS,'			if state == nil {','			if state == nil && len(machine.States) > 1 {')]),
('C21','bug',[(STS,'		if machine == nil {','		if machine == nil && name == "" {')]),
('C21','bug',[(STS,'''	if err := suite.checkNulls(); err != nil {
		return nil, err
	}
''','')]),
('C21','bug',[(CTX,'''	if len(machine.States) == 0 {
		return false
	}

''','')]),
('C21','bug',[(K,'''	if gen.config.Package == nil {
		var pkg cfg.Package
		gen.config.Package = &pkg
	}

''','')]),
('C21','bug',[(K,'''	if gen.config.Package == nil {''','''	if gen.config.Package == nil && cppConfig.Makefile == nil {''')]),
('C21','bug',[(CLI,'	case maxArgs - 1:','	case maxArgs - 1, 0:'),(MG,'	action.configFile = argv[0]','	action.configFile = argv[0]')]),
('C21','bug',[(CLI,'		return args[maxArgs-1], nil','		return args[maxArgs], nil')]),
('C21','bug',[(CH,'	if numFields < numChannelParts || numEventParts < numFields {','	if numEventParts < numFields {')]),
('C21','bug',[(CH,'	if numFields == numChannelParts {\n		return nil, nil\n	}\n','')]),
('C21','bug',[(VAL,'''	if v.IsEmpty() {
		return ""
	}

''','')]),
('C21','bug',[(VAL,'''	if v.IsEmpty() {
		return rstype.Empty()
	}

''','')]),
('C21','bug',[(VAL,'''	if other.IsEmpty() {
		return false
	}
''','''	if other.content.String() == "" {
		return false
	}
''')]),
('C21','bug',[(SET,'	s.contents = map[T]bool{}\n\n	s.Add(values...)','	s.Add(values...)')]),
('C21','bug',[(VD,'	*v = make(Verdict, len(strMap))\n\n','	if len(strMap) > 1 {\n		*v = make(Verdict, len(strMap))\n	}\n\n')]),
('C21','bug',[(TS,'map[testlang.NodeID][]Transition{stateID: set.Transitions}))','nil))')]),
('C21','bug',[(U,'''	case rhs == nil:
		return lhs, nil
''','')]),
('C21','bug',[(B,'''	if node.Event == nil {
		return nil
	}
''','')]),
('C21','bug',[(ST,'''	if node.Outcome == testlang.OutcomeFail {
		return
	}
''','')]),
('C21','bug',[(B,'		b.ensureNodeID(np)\n','		if np.Outcome != testlang.OutcomePass {\n			b.ensureNodeID(np)\n		}\n')]),
('C21','bug',[(B,'Types: map[string]*rstype.RsType{}}','Types: nil}')]),
('C21','bug',[(B,'Tests: structure.NewSet[string](), ','')]),
('C21','bug',[(B,'	for !b.stack.IsEmpty() {','	for i := 0; i <= len(testRoot.Next); i++ {')]),
('C21','bug',[(W,'	for !stack.IsEmpty() {','	for i := 0; i < 9 || !stack.IsEmpty(); i++ {')]),
('C21','bug',[(STK,'	item := s.items[s.count-1]','	item := s.items[s.count]')]),
('C21','bug',[(EXP,'	for i := len(t.Prefix) - 1; 0 <= i; i-- {','	for i := len(t.Prefix); 0 <= i; i-- {')]),
('C21','bug',[(NAME,'	eventStrs := make([]string, len(t))','	eventStrs := make([]string, 0, len(t))')]),
('C21','bug',[(GEN,'''	if config.Catkin == nil {
		return nil, nil
	}

''',''),(K,'''	if cppConfig.Catkin != nil {
		gen.config = *cppConfig.Catkin
	}
''','	gen.config = *cppConfig.Catkin\n')]),
('C21','bug',[(MK,'template: tmpl}','}'),(MK,'	tmpl, err := parseTemplate()','	_, err := parseTemplate()')]),
('C21','bug',[(MK,'		suite:  suite,\n','')]),
('C21','bug',[(CPP,'		parent: g,\n		suite:  suite,','		suite: suite,')]),
('C21','bug',[(GEN,'	return &OnSuite{parent: g, suite: suite, subgens: subgens}','	return &OnSuite{parent: g, subgens: subgens}')]),
('C21','bug',[(CPP,'	dirs := make([]string, 1, len(o.suite.Tests)+1)','	dirs := make([]string, 0, len(o.suite.Tests)+1)')]),
('C21','bug',[(TPL,'	if gens.testSpecific, err = templating.NewGenerator(testSpecificFiles, builder); err != nil {','	if len(testSpecificFiles) == 0 {')]),
('C21','bug',[(COL,'''	if err = validate.Root(test); err != nil {
		return collapsed, fmt.Errorf("test does not start with a valid root: %w", err)
	}
''','''	if err = validate.Root(test); err != nil {
		return collapsed, fmt.Errorf("test %s does not start with a valid root: %w", test.Event, err)
	}

	collapsed.Name = test.Tests[1]
''')]),
('C21','bug',[(VN,'''	if nnodes := len(node.Next); nnodes != 1 {''','''	if nnodes := len(node.Next); nnodes > 1 {'''),(V,'''	if nnodes := len(node.Next); nnodes != 1 {''','''	if nnodes := len(node.Next); nnodes > 1 {''')][1:]),
('C21','bug',[(STR,'''	for _, char := range ident {
		switch {''','''	if first := []rune(ident)[0]; first == '_' {
		s.markSplit()
	}

	for _, char := range ident {
		switch {''')]),
# the same in other words
('C21','ok',[(V,'''	if root == nil {
		return nil, ErrNoRoot
	}
''','''	if isNil := root == nil; isNil {
		return nil, ErrNoRoot
	}
''')]),
('C21','ok',[(K,'''	if gen.config.Package == nil {
		var pkg cfg.Package
		gen.config.Package = &pkg
	}

	gen.config.Package.Autofill()

	return &gen, nil
}''','''	gen.ensurePackage()

	return &gen, nil
}

func (g *Generator) ensurePackage() {
	if g.config.Package == nil {
		g.config.Package = new(cfg.Package)
	}

	pkg := g.config.Package
	pkg.Autofill()
}''')]),
('C21','ok',[(CTX,'''	if len(machine.States) == 0 {
		return false
	}

	for _, ts := range machine.States[0].TransitionSets {
		if ts.Channel.IsIn() {
			return true
		}
	}

	return false''','''	for _, state := range machine.States {
		for i := range state.TransitionSets {
			if state.TransitionSets[i].Channel.IsIn() {
				return true
			}
		}

		break
	}

	return false''')]),
('C21','ok',[(CLI,'''	switch len(args) {
	case maxArgs:
		// Last argument is the file.
		return args[maxArgs-1], nil
	case maxArgs - 1:
		// Missing file argument, try stdin.
		return stdinPath, nil
	default:
		return "", ErrBadArgs
	}''','''	n := len(args)

	if n > 0 && n == maxArgs {
		return args[n-1], nil
	}

	if n+1 == maxArgs {
		return stdinPath, nil
	}

	return "", ErrBadArgs''')]),
('C21','ok',[(STS,'''	for name, machine := range s.Tests {
		if machine == nil {
			return fmt.Errorf("%w: %s", ErrNullStm, name)
		}

		for _, state := range machine.States {
			if state == nil {
				return fmt.Errorf("%w: %s", ErrNullState, name)
			}
		}
	}

	return nil
}''','''	for name, machine := range s.Tests {
		if err := machine.checkNulls(name); err != nil {
			return err
		}
	}

	return nil
}

func (s *Stm) checkNulls(name string) error {
	if s == nil {
		return fmt.Errorf("%w: %s", ErrNullStm, name)
	}

	for i := range s.States {
		if s.States[i] == nil {
			return fmt.Errorf("%w: %s", ErrNullState, name)
		}
	}

	return nil
}''')]),
('C21','ok',[(CH,'''	if numFields < numChannelParts || numEventParts < numFields {
		return nil, BadFieldCountError{Got: numFields}
	}
''','''	switch numFields {
	case numChannelParts, numEventParts:
	default:
		return nil, BadFieldCountError{Got: numFields}
	}
''')]),
('C21','ok',[(GEN,'''	subgens := make([]subgen.OnSuite, len(g.subgens))

	for i, subg := range g.subgens {
		subgens[i] = subg.OnSuite(suite)
	}
''','''	subgens := make([]subgen.OnSuite, 0, len(g.subgens))

	for i := range g.subgens {
		subgens = append(subgens, g.subgens[i].OnSuite(suite))
	}
''')]),
('C21','ok',[(B,'''func (b *Builder) pushNext(node *testlang.Node) {
	for i := range node.Next {
		b.stack.Push(&node.Next[i])
	}
}''','''func (b *Builder) pushNext(node *testlang.Node) {
	for i := 0; i < len(node.Next); i++ {
		next := &node.Next[i]
		b.stack.Push(next)
	}
}''')]),
('C21','ok',[(VD,'''	for _, t := range tests {
		(*v)[t] = outcome
	}''','''	m := *v
	for i := range tests {
		m[tests[i]] = outcome
	}''')]),
('C21','ok',[(CPP,'''	dirs := make([]string, 1, len(o.suite.Tests)+1)
	dirs[0] = o.parent.srcDirSet.OutputPath(preludeDir)
''','''	dirs := []string{o.parent.srcDirSet.OutputPath(preludeDir)}
''')]),
('C21','ok',[(MS,'''	vs, err := validate.FullSuite(s)
	if err != nil {
		return fmt.Errorf("malformed test suite: %w", err)
	}

	stms, err := a.buildStms(vs)
	if err != nil {
		return fmt.Errorf("couldn't build stms for test suite: %w", err)
	}

	if err := stms.Write(os.Stdout); err != nil {
		return fmt.Errorf("couldn't write state machines: %w", err)
	}

	return nil''','''	stms, err := a.convert(s)
	if err != nil {
		return err
	}

	if err := stms.Write(os.Stdout); err != nil {
		return fmt.Errorf("couldn't write state machines: %w", err)
	}

	return nil
}

func (a *makeStmAction) convert(s testlang.Suite) (*stm.Suite, error) {
	vs, err := validate.FullSuite(s)
	if err != nil {
		return nil, fmt.Errorf("malformed test suite: %w", err)
	}

	stms, err := a.buildStms(vs)
	if err != nil {
		return nil, fmt.Errorf("couldn't build stms for test suite: %w", err)
	}

	return stms, nil''')]),
]
