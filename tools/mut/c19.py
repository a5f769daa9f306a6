SET='internal/structure/set.go'; V='internal/stm/verdict/verdict.go'; B='internal/stm/builder.go'; CTX='internal/gen/gencommon/context.go'; ST='internal/stm/state.go'
MK='internal/gen/makefile/context.go'; CPP='internal/gen/cpp/cpp.go'; K='internal/gen/catkin/catkin.go'; P='internal/gen/config/cpp/context.go'; SM='internal/stm/stm.go'; TS='internal/stm/transition/set.go'
MT='internal/gen/makefile/embed/templates/Makefile.tmpl'; EN='internal/gen/cpp/embed/templates/base/entry.cpp.tmpl'; BASE='internal/gen/cpp/embed/templates/base/base.cpp.tmpl'; TR='internal/trace/trace.go'; SER='internal/serial/serial.go'; MAP='internal/structure/map.go'
SORT='''	sort.Slice(values, func(i, j int) bool {
		return fmt.Sprint(values[i]) < fmt.Sprint(values[j])
	})
'''
CASES=[
('C19','bug',[(SET,SORT,'	_ = sort.Slice\n')]),
('C19','bug',[(SET,SORT,'''	sort.Slice(values, func(i, j int) bool {
		return len(fmt.Sprint(values[i])) < len(fmt.Sprint(values[j]))
	})
''')]),
('C19','bug',[(SET,SORT,'''	if len(values) > 2 {
		sort.Slice(values, func(i, j int) bool {
			return fmt.Sprint(values[i]) < fmt.Sprint(values[j])
		})
	}
''')]),
('C19','bug',[(V,'	sort.Strings(tests)\n','	_ = sort.Strings\n')]),
('C19','bug',[(B,'	b.nodeNum = 0\n','')]),
('C19','bug',[(CTX,'		Name:        name,','		Name:        name + time.Now().Format("05"),')]),
('C19','bug',[(CTX,'		if tra.Channel.IsIn() {','		if rand.Intn(9) >= 0 && tra.Channel.IsIn() {')]),
('C19','bug',[(SM,'	for _, st := range s.States {','	byID := map[string]*State{}\n	for _, st := range s.States {\n		byID[string(st.ID)] = st\n	}\n	for _, st := range byID {')]),
('C19','bug',[(MK,'	Tests map[string]*stm.Stm // Tests is the set of tests for which we are generating Makefile rules.\n','	Tests map[string]*stm.Stm // Tests is the set of tests for which we are generating Makefile rules.\n	Order []string\n'),
  (MK,'	return &Context{Tests: suite.Tests, Context: cfg}','	c := &Context{Tests: suite.Tests, Context: cfg}\n	for n := range suite.Tests {\n		c.Order = append(c.Order, n)\n	}\n	return c'),
  (MT,'{{- range $k, $v := .Tests }} {{ template "output" $k }}','{{- range $k := .Order }} {{ template "output" $k }}')]),
('C19','bug',[(EN,'  stm.getVerdict().dump();','  stm.getVerdict().dump();\n  std::cerr << "{{ .Date }}";')]),
('C19','bug',[(B,'	for name, test := range s {\n','	n := 0\n\n	for name, test := range s {\n'),(B,'		suite[name] = &m','		if n++; n%2 == 0 {\n			m.States = append(m.States[:1:1], m.States[1:]...)\n		}\n		suite[name] = &m\n		if n == 3 {\n			m.Tests.Add("third")\n		}\n')]),
('C19','bug',[(P,'		override, ok := overrides[cname]\n','		override, ok := overrides[cname]\n		if len(ctx.Includes) > len(ctx.ChannelTypes) {\n			override += ""\n		}\n		if len(ctx.ChannelTypes) == 0 && !ok {\n			override = "auto"\n		}\n')]),
('C19','bug',[(TR,'	result := make(map[string]Forbidden, len(traces))\n','	result := make(map[string]Forbidden, len(traces))\n	seed := maphash.MakeSeed()\n	_ = maphash.String(seed, "")\n')]),
('C19','bug',[(ST,'func (s *State)','var _ = os.Getenv\n\nfunc (s *State) debug() string { return os.Getenv("RTCG") }\n\nfunc (s *State)')]),
('C19','bug',[(V,'	for k := range *v {\n','	for k := range *v {\n		if len(tests) > 8 {\n			break\n		}\n')]),
('C19','ok',[(V,'	tests := make([]string, 0, len(*v))\n\n	for k := range *v {\n		tests = append(tests, k)\n	}\n\n	sort.Strings(tests)\n\n	return tests','	return sortedKeys(*v)'),(V,'// IsInc gets','func sortedKeys(m map[string]testlang.Outcome) []string {\n	keys := make([]string, 0, len(m))\n	for k := range m {\n		keys = append(keys, k)\n	}\n	sort.Strings(keys)\n	return keys\n}\n\n// IsInc gets')]),
('C19','ok',[(V,'	for k := range *v {\n		tests = append(tests, k)\n	}','	for name := range *v {\n		tests = append(tests, name)\n	}')]),
('C19','ok',[(CTX,'		Date:        time.Now(),','		Date:        now(),'),(CTX,'// TransitionContext provides','func now() time.Time { return time.Now() }\n\n// TransitionContext provides')]),
('C19','ok',[(SM,'// Stm ','func countStates(ms map[string]*Stm) int {\n	n := 0\n	for _, m := range ms {\n		n += len(m.States)\n	}\n	return n\n}\n\n// Stm ')]),
('C19','ok',[(SM,'// Stm ','func names(ms map[string]*Stm) []string {\n	var out []string\n	for k, m := range ms {\n		if m == nil {\n			continue\n		}\n		out = append(out, k)\n	}\n	sort.Strings(out)\n	return out\n}\n\n// Stm ')]),
('C19','bug',[(SM,'// Stm ','func names(ms map[string]*Stm) []string {\n	var out []string\n	for k, m := range ms {\n		if m == nil {\n			continue\n		}\n		out = append(out, k)\n	}\n	return out\n}\n\n// Stm ')]),
('C19','bug',[(SM,'// Stm ','func someName(ms map[string]*Stm) string {\n	for k := range ms {\n		return k\n	}\n	return ""\n}\n\n// Stm ')]),
('C19','bug',[(SM,'// Stm ','func lastName(ms map[string]*Stm) (s string) {\n	for k := range ms {\n		s = k\n	}\n	return s\n}\n\n// Stm ')]),
('C19','ok',[(SM,'// Stm ','func anyNil(ms map[string]*Stm) bool {\n	found := false\n	for _, m := range ms {\n		if m == nil {\n			found = true\n			break\n		}\n	}\n	return found\n}\n\n// Stm ')]),
('C19','ok',[(SM,'// Stm ','func invert(ms map[string]*Stm) map[string]int {\n	out := map[string]int{}\n	for k, m := range ms {\n		out[k] = len(m.States)\n	}\n	return out\n}\n\n// Stm ')]),
]
