
F='internal/factorise/factorise.go'
CASES=[
('C34','bug',(F,'t.Prefix.Equals(after)','t.Prefix.IsPrefixOf(after)')),
('C34','bug',(F,'t.Prefix.Equals(after)','!t.Prefix.Equals(after)')),
('C34','bug',(F,'Test: k, Event','Test: t.Name, Event')),
('C34','bug',(F,'failures = append(failures, Failure{Test: k, Event: t.Forbid})','failures = append(failures, Failure{Test: k, Event: t.Forbid})\n\n\t\t\tbreak')),
('C34','bug',(F,'last = after[nAfter-1]','last = after[0]')),
('C34','bug',(F,'0 < nAfter','1 < nAfter')),
('C34','bug',(F,'f.Event.Channel.IsIn()','f.Event.Channel.IsOut()')),
('C34','bug',(F,'	return append(inSpines, testlang.Inc(last, outputs...))','	if len(outputs) == 0 {\n\t\treturn inSpines\n\t}\n\n	return append(inSpines, testlang.Inc(last, outputs...))')),
('C34','bug',(F,'testlang.Inc(last, node)','testlang.Inc(f.Event, node)')),
('C34','bug',(F,'testlang.Inc(last, node)','testlang.Pass(last, node)')),
('C34','bug',(F,'return testlang.TestPoint(f.Event, f.Test)','return testlang.TestPoint(f.Event)')),
('C34','bug',('internal/testlang/node.go','	fail.Mark(tests...)\n',''),),
('C34','bug',(F,'outputs = append(outputs, node)','outputs = append([]testlang.Node{}, node)')),
('C34','ok',(F,'	for k, t := range tests {\n		if t.Prefix.Equals(after) {\n			failures = append(failures, Failure{Test: k, Event: t.Forbid})\n		}\n	}','	for k, t := range tests {\n		if !t.Prefix.Equals(after) {\n			continue\n		}\n\n		failures = append(failures, Failure{Test: k, Event: t.Forbid})\n	}')),
('C34','ok',(F,'failures := make([]Failure, 0, len(tests))','var failures []Failure')),
('C34','ok',(F,'''	for _, f := range failures {
		node := f.Node()

		if f.Event.Channel.IsIn() {
			// Each input gets placed on its own copy of the spine directly.
			inSpines = append(inSpines, testlang.Inc(last, node))
		} else {
			// Outputs get merged into a single spine node.
			outputs = append(outputs, node)
		}
	}

	return append(inSpines, testlang.Inc(last, outputs...))''','''	for i := range failures {
		if !failures[i].Event.Channel.IsIn() {
			outputs = append(outputs, failures[i].Node())

			continue
		}

		inSpines = append(inSpines, testlang.Inc(last, failures[i].Node()))
	}

	inSpines = append(inSpines, testlang.Inc(last, outputs...))

	return inSpines''')),
('C34','ok',(F,'''	var last testlang.Event

	if nAfter := len(after); 0 < nAfter {
		last = after[nAfter-1]
	}

	return last''','''	if len(after) == 0 {
		return testlang.Event{}
	}

	return after[len(after)-1]''')),
('C34','ok',(F,'t.Prefix.Equals(after)','after.Equals(t.Prefix)')),
('C34','ok',(F,'t.Prefix.Equals(after)','len(t.Prefix) == len(after) && t.Prefix.IsPrefixOf(after)')),
]
