V='internal/stm/verdict/verdict.go'; M='internal/structure/set.go'; S='internal/stm/state.go'; B='internal/stm/builder.go'
CASES=[
('C07','bug',(V,'	return v.Is(testlang.OutcomeFail)','	return v.Is(testlang.OutcomePass)')),
('C07','bug',(V,'		if s == status {\n			return true','		if s >= status {\n			return true')),
('C07','bug',(V,'		if s == status {\n			tests.Add','		if s >= status {\n			tests.Add')),
('C07','bug',(V,'			tests.Add(k)\n','			tests.Add(k)\n			break\n')),
('C07','bug',(V,'			tests.Add(k)\n','			tests = structure.NewSet(k)\n')),
('C07','bug',(V,'	for _, t := range tests {\n		(*v)[t] = outcome\n	}','	for i := 1; i < len(tests); i++ {\n		(*v)[tests[i]] = outcome\n	}\n	(*v)[tests[len(tests)-1]] = outcome')),
('C07','ok',(V,'	for _, t := range tests {\n		(*v)[t] = outcome\n	}','	m := *v\n	for i := range tests {\n		m[tests[i]] = outcome\n	}')),
('C07','ok',(V,'	tests := make([]string, 0, len(*v))','	var tests []string')),
('C07','bug',(V,'	sort.Strings(tests)\n','')),
('C07','bug',(M,'fmt.Sprint(values[i]) < fmt.Sprint(values[j])','fmt.Sprint(values[i]) > fmt.Sprint(values[j])')),
('C07','bug',(M,'fmt.Sprint(values[i]) < fmt.Sprint(values[j])','len(fmt.Sprint(values[i])) < len(fmt.Sprint(values[j]))')),
('C07','ok',(M,'fmt.Sprint(values[i]) < fmt.Sprint(values[j])','fmt.Sprint(values[j]) > fmt.Sprint(values[i])')),
('C07','ok',[(M,'		return fmt.Sprint(values[i]) < fmt.Sprint(values[j])','		l, r := fmt.Sprint(values[i]), fmt.Sprint(values[j])\n		return l < r')]),
('C07','bug',(M,'		s.contents[v] = true','		s.contents[v] = !s.contents[v]')),
('C07','bug',(S,'	s.Verdict.Add(node.Outcome, node.Tests...)','	if len(node.Tests) > 0 {\n		s.Verdict.Add(node.Outcome, node.Tests[0])\n	}')),
('C07','bug',(B,'		b.stm.Tests.Add(np.Tests...)\n','		if np.Event != nil {\n			b.stm.Tests.Add(np.Tests...)\n		}\n')),
('C07','ok',(V,'''	for _, s := range *v {
		if s == status {
			return true
		}
	}

	return false''','''	found := false
	for _, s := range *v {
		if s == status {
			found = true
			break
		}
	}

	return found''')),
('C07','ok',(V,'''	for _, s := range *v {
		if s == status {
			return true
		}
	}

	return false''','''	found := false
	for t := range *v {
		if (*v)[t] == status {
			found = true
		}
	}

	return found''')),
('C07','ok',(V,'''	return v.Is(testlang.OutcomeFail)''','''	for _, o := range *v {
		switch o {
		case testlang.OutcomeFail:
			return true
		}
	}
	return false''')),
]
