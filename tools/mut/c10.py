N='internal/testlang/node.go'; S='internal/stm/state.go'; V='internal/testlang/value/value.go'; D='internal/stm/verdict/verdict.go'; T='internal/structure/set.go'; U='internal/stm/suite.go'; M='internal/stm/stm.go'; R='internal/stm/transition/transition.go'; TS='internal/stm/transition/set.go'; J='internal/serial/serial.go'
CASES=[
('C10','bug',[(N,'Tests []string `json:"tests,omitempty"`','Tests []string `json:"-"`')]),
('C10','bug',[(N,'`json:"event,omitempty"`','`json:"outcome,omitempty"`')]),
('C10','bug',[(U,'map[string]*Stm `json:"tests,omitempty"`','map[string]*Stm `json:"types,omitempty"`')]),
('C10','bug',[(D,'strMap[k] = v.String()','if v != testlang.OutcomeUnset {\n\t\t\tstrMap[k] = v.String()\n\t\t}')]),
('C10','bug',[(D,'''			return fmt.Errorf("couldn't unmarshal status %q: %w", outStr, err)''','''			continue''')]),
('C10','bug',[(T,'''	s.Add(values...)

	return nil''','''	for _, v := range values {
		if _, ok := s.contents[v]; ok {
			delete(s.contents, v)
			continue
		}
		s.contents[v] = true
	}

	return nil''')]),
('C10','bug',[(V,'return []byte("null"), nil','return []byte("\\"\\""), nil')]),
('C10','bug',[(V,'json.Marshal(string(text))','json.Marshal(v.StringValue())')]),
('C10','bug',[(TS,'''func (t Set) String() string {''','''// MarshalText gives the text of a set.
func (t Set) MarshalText() ([]byte, error) { return []byte(t.String()), nil }

func (t Set) String() string {''')]),
('C10','bug',[(M,'Tests structure.Set[string] `json:"tests"`','Tests structure.Set[string] `json:"tests,omitempty"`'),(U,'''	for name, machine := range s.Tests {
		if machine == nil {''','''	for name, machine := range s.Tests {
		if len(machine.States) == 0 {
			delete(s.Tests, name)
			continue
		}

		if machine == nil {''')]),
('C10','bug',[(J,'j.SetIndent("", "\\t")','j.SetIndent("", "\\t")\n\n\tif s, ok := value.(interface{ Len() int }); ok && s.Len() == 0 {\n\t\treturn nil\n\t}')]),
('C10','bug',[(D,'for k, v := range *v {\n\t\tstrMap','for k, v := range *v {\n\t\tk = strings.TrimSpace(k)\n\t\tstrMap')]),
('C10','ok',[(D,'''	strMap := make(map[string]string, len(*v))

	for k, v := range *v {
		strMap[k] = v.String()
	}
''','''	strMap := map[string]string{}

	for _, k := range v.Tests() {
		o := (*v)[k]
		strMap[k] = o.String()
	}
''')]),
('C10','ok',[(D,'''		v.Add(outcome, test)''','''		(*v)[test] = outcome''')]),
('C10','ok',[(T,'''	s.contents = map[T]bool{}

	s.Add(values...)

	return nil''','''	*s = NewSet(values...)

	return nil''')]),
('C10','ok',[(T,'''	s.contents = map[T]bool{}

	s.Add(values...)

	return nil''','''	s.contents = make(map[T]bool, len(values))

	for _, v := range values {
		s.contents[v] = true
	}

	return nil''')]),
('C10','ok',[(V,'''	text, err := v.MarshalText()
	if err != nil {
		return nil, err
	}

	output, err := json.Marshal(string(text))''','''	text, err := v.content.MarshalText()
	if err != nil {
		return nil, fmt.Errorf("bad: %w", err)
	}

	output, err := json.Marshal(string(text))''')]),
('C10','ok',[(J,'''	j := json.NewDecoder(reader)

	if err := j.Decode(dest); err != nil {
		return fmt.Errorf("JSON read error: %w", err)
	}

	return nil''','''	bs, err := io.ReadAll(reader)
	if err == nil {
		err = json.Unmarshal(bs, dest)
	}

	if err != nil {
		return fmt.Errorf("JSON read error: %w", err)
	}

	return nil''')]),
('C10','ok',[(D,'''	*v = make(Verdict, len(strMap))

	for test, outStr := range strMap {
		var outcome testlang.Outcome

		if err := outcome.UnmarshalText([]byte(outStr)); err != nil {
			return fmt.Errorf("couldn't unmarshal status %q: %w", outStr, err)
		}

		v.Add(outcome, test)
	}
''','''	result := make(Verdict, len(strMap))

	for test, outStr := range strMap {
		outcome, err := parseOutcome(outStr)
		if err != nil {
			return err
		}

		result[test] = outcome
	}

	*v = result
'''),(D,'// TestSet contains','''func parseOutcome(s string) (testlang.Outcome, error) {
	var outcome testlang.Outcome
	if err := outcome.UnmarshalText([]byte(s)); err != nil {
		return outcome, fmt.Errorf("couldn't unmarshal status %q: %w", s, err)
	}

	return outcome, nil
}

// TestSet contains''')]),
]
