C='internal/trace/collapse.go'; N='internal/validate/node.go'; V='internal/validate/validate.go'; W='internal/testlang/walk.go'; S='internal/validate/suite.go'; M='internal/structure/map.go'
CASES=[
('C04','bug',(C,'collapsed.Prefix = append(collapsed.Prefix, *test.Event)','collapsed.Prefix = append(collapsed.Prefix[:0:0], *test.Event)')),
('C04','bug',(C,'collapsed.Forbid = *test.Event','collapsed.Forbid = *test.Event\n\t\treturn true, nil')),
('C04','ok',(C,'case testlang.OutcomeUnset:\n\t\tfallthrough\n','case testlang.OutcomeUnset:\n\t\treturn false, nil\n')),
('C04','bug',(C,'if err = validate.Root(test); err != nil {','if err = validate.Root(test); err != nil && len(test.Tests) > 0 {')),
('C04','bug',(C,'if test, err = validate.OneNext(test); err != nil {','if len(test.Next) > 1 {\n\t\t\ttest = &test.Next[0]\n\t\t} else if test, err = validate.OneNext(test); err != nil {')),
('C04','bug',(C,'collapsed.Prefix = append(collapsed.Prefix, *test.Event)','if pos < 100 {\n\t\t\tcollapsed.Prefix = append(collapsed.Prefix, *test.Event)\n\t\t}')),
('C04','bug',(M,'return nil, err','return result, nil')),
('C04','ok',(C,'	for done, pos := false, 1; !done; pos++ {','	pos := 0\n\tdone := false\n\tfor !done {\n\t\tpos++')),
('C04','ok',(C,'''		if done, err = collapseNode(&collapsed, test, pos); err != nil {
			return collapsed, err
		}
''','''		switch test.Outcome {
		case testlang.OutcomeFail:
			return collapsed, nil
		case testlang.OutcomePass:
			collapsed.Forbid = *test.Event
		case testlang.OutcomeInc:
			collapsed.Prefix = append(collapsed.Prefix, *test.Event)
		default:
			return collapsed, BadOutcomeError{Position: pos, Outcome: test.Outcome}
		}
''')),
('C04','ok',[(C,'''	if done, err = collapseNode(&collapsed''','''	_ = pos
		if done, err = collapseNode(&collapsed''')]),
('C04','ok',(C,'''	collapsed, err := structure.TryOverMapValues(suite, Collapse)
	if err != nil {
		return nil, fmt.Errorf("couldn't collapse suite: %w", err)
	}

	return collapsed, nil''','''	out := make(map[string]Forbidden, len(suite))
	for name, test := range suite {
		c, err := Collapse(test)
		if err != nil {
			return nil, fmt.Errorf("couldn't collapse suite: %s %w", name, err)
		}
		out[name] = c
	}
	_ = structure.NewSet[string]

	return out, nil''')),
('C05','bug',(N,'	if len(node.Next) != 0 {\n\t\treturn ErrFailHasNextNodes','	if len(node.Next) > 1 {\n\t\treturn ErrFailHasNextNodes')),
('C05','bug',(V,'		if node == root {','		if node.Outcome == testlang.OutcomeUnset {')),
('C05','bug',(N,'	if len(node.Tests) == 0 {\n\t\treturn ErrNoTests\n\t}\n\n\tswitch','	if node.Tests == nil {\n\t\treturn ErrNoTests\n\t}\n\n\tswitch')),
('C05','bug',(W,'','\nvar _ = 0\n')) if 0 else
('C05','bug',(N,'		if err := passNode(node); err != nil {\n\t\t\treturn err\n\t\t}\n\n','')),
('C05','bug',(N,'		if err := passNode(node); err != nil {\n\t\t\treturn err\n\t\t}\n\n\t\tfallthrough','		return passNode(node)')),
('C05','bug',(V,'		if err != nil {\n\t\t\treturn fmt.Errorf("invalid node','		if err != nil && len(node.Next) > 0 {\n\t\t\treturn fmt.Errorf("invalid node')),
('C05','bug',(M,'return nil, err','return result, nil')),
('C05','ok',(N,'''	switch node.Outcome {
	case testlang.OutcomeUnset:
		return ErrNoOutcome
	case testlang.OutcomeFail:
		return failNode(node)
''','''	if node.Outcome == testlang.OutcomeUnset {
		return ErrNoOutcome
	}

	if node.Outcome == testlang.OutcomeFail {
		return failNode(node)
	}

	switch node.Outcome {
''')),
('C05','ok',(V,'''		if node == root {
			err = Root(node)
		} else {
			err = Node(node)
		}

		if err != nil {''','''		check := Node
		if root == node {
			check = Root
		}

		if err = check(node); err != nil {''')),
('C05','ok',(N,'	if node.Event == nil {\n\t\treturn ErrNoEvent\n\t}\n\n	if len(node.Next) == 0 {\n		return ErrNoNextNodes\n	}\n\n	return nil','	if len(node.Next) < 1 {\n\t\treturn ErrNoNextNodes\n\t}\n\n	if node.Event != nil {\n\t\treturn nil\n\t}\n\n	return ErrNoEvent')),
('C05','ok',(N,'func passNode','func oneNextErr(n *testlang.Node) error {\n\t_, err := OneNext(n)\n\n\treturn err\n}\n\nfunc passNode')),
]
