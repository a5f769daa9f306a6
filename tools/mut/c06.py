B='internal/stm/builder.go'; S='internal/stm/state.go'; T='internal/stm/transition/set.go'; V='internal/stm/verdict/verdict.go'; K='internal/structure/stack.go'; M='internal/structure/set.go'
CASES=[
('C06','bug',(B,'	b.nodeNum = 0\n','')),
('C06','bug',(B,'	b.nodeNum++\n','')),
('C06','bug',(B,'''	if n.ID != "" {
		return
	}
''','')),
('C06','bug',(B,'b.stm = Stm{States: []*State{}, Tests','b.stm = Stm{States: b.stm.States, Tests')),
('C06','bug',(B,'	testRoot.ID = "initial"\n','	if testRoot.ID == "" {\n\t\ttestRoot.ID = "initial"\n\t}\n')),
('C06','bug',(S,'''	if node.Outcome == testlang.OutcomeFail {
		return
	}
''','''	if node.Outcome != testlang.OutcomeInc && node.Outcome != testlang.OutcomePass || len(node.Next) == 0 {
		return
	}
''')),
('C06','ok',(S,'''	if node.Outcome == testlang.OutcomeFail {
		return
	}

	if node.ID == "" {
		panic("should have assigned an ID to node")
	}
''','''	if node.Outcome == testlang.OutcomeFail {
		return
	}
''')),
('C06','bug',(T,'IsForChannel(channel) {\n			ts.Transitions = append(ts.Transitions, transition)','IsForChannel(channel) {\n			ts.Transitions = append([]Transition{transition}, ts.Transitions...)')),
('C06','bug',(T,'	return b.Channel.Equals(channel)','	return b.Channel.Name == channel.Name')),
('C06','ok',(T,'	return b.Channel.Equals(channel)','	return b.Channel.Name == channel.Name && channel.Kind == b.Channel.Kind')),
('C06','ok',(T,'''	for i := range sets {
		if ts := &sets[i]; ts.IsForChannel(channel) {
			ts.Transitions = append(ts.Transitions, transition)

			return sets
		}
	}''','''	for i, s := range sets {
		if !s.IsForChannel(channel) {
			continue
		}
		sets[i].Transitions = append(s.Transitions, transition)
		return sets
	}''')),
('C06','bug',(B,'''	for i := range node.Next {
		b.stack.Push(&node.Next[i])
	}''','''	for i := range node.Next {
		if node.Outcome != testlang.OutcomePass {
			b.stack.Push(&node.Next[i])
		}
	}''')),
('C06','ok',(B,'''	for i := range node.Next {
		b.stack.Push(&node.Next[i])
	}''','''	for i := range node.Next {
		if node.Next[i].Outcome != testlang.OutcomeFail {
			b.stack.Push(&node.Next[i])
		}
	}''')),
('C06','bug',(K,'	item := s.items[s.count-1]\n	s.items = s.items[:s.count-1]','	item := s.items[0]\n	s.items = s.items[1:]')),
('C06','ok',(K,'''	item := s.items[s.count-1]
	s.items = s.items[:s.count-1]
	s.count--
''','''	s.count--
	item := s.items[s.count]
	s.items = s.items[:s.count]
''')),
('C06','ok',[(K,'	items []T\n	count int\n','	items []T\n'),(K,'	s.count++\n',''),(K,'''	item := s.items[s.count-1]
	s.items = s.items[:s.count-1]
	s.count--
''','''	n := len(s.items) - 1
	item := s.items[n]
	s.items = s.items[:n]
'''),(K,'return s.count == 0','return len(s.items) == 0'),(K,'	s.count = 0\n','')]),
('C06','ok',(B,'''	for !b.stack.IsEmpty() {
		node := b.stack.Pop()

		if err := b.processNode(node); err != nil {
			return b.stm, err
		}
	}
''','''	for {
		if b.stack.IsEmpty() {
			break
		}
		node := b.stack.Pop()
		if node.Outcome == testlang.OutcomeFail {
			continue
		}
		if err := b.processNode(node); err != nil {
			return b.stm, err
		}
	}
''')),
('C06','bug',(V,'		(*v)[t] = outcome\n','		if _, ok := (*v)[t]; !ok || outcome == testlang.OutcomePass {\n			(*v)[t] = outcome\n		}\n')),
('C06','ok',(B,'''	sn := b.buildState(node)
	b.stm.States = append(b.stm.States, sn)

	if err := b.inferNodeEventType(node); err != nil {
		return err
	}

	b.pushNext(node)
''','''	sn := b.buildState(node)

	if err := b.inferNodeEventType(node); err != nil {
		return err
	}

	b.pushNext(node)
	b.stm.States = append(b.stm.States, sn)
''')),
('C06','ok',(B,'''	for i := range node.Next {
		np := &node.Next[i]

		b.ensureNodeID(np)
		b.stm.Tests.Add(np.Tests...)
		result.AddOutgoingNode(np)
	}
''','''	for i := range node.Next {
		b.ensureNodeID(&node.Next[i])
	}

	for i := range node.Next {
		np := &node.Next[i]
		b.stm.Tests.Add(np.Tests...)
		result.AddOutgoingNode(np)
	}
''')),
('C06','bug',(B,'		b.stm.Tests.Add(np.Tests...)\n','		if np.Outcome != testlang.OutcomeFail {\n			b.stm.Tests.Add(np.Tests...)\n		}\n')),
('C06','bug',(S,'	s.addVerdictsFromNode(node)\n','	if len(s.TransitionSets) == 0 || node.Outcome == testlang.OutcomeFail {\n		s.addVerdictsFromNode(node)\n	}\n')),
('C06','ok',(S,'	s.addVerdictsFromNode(node)\n	s.addTransitionToNode(node)\n','	s.addTransitionToNode(node)\n	s.addVerdictsFromNode(node)\n')),
('C06','ok',(B,'''	if err := b.inferNodeEventType(node); err != nil {
		return err
	}

	b.pushNext(node)
''','''	b.pushNext(node)

	return b.inferNodeEventType(node)
}

func (b *Builder) unused(node *testlang.Node) error {
''')),
]
