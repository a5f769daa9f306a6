S='internal/strmanip/strmanip.go'; P='internal/gen/config/catkin/package.go'; G='internal/gen/gencommon/context.go'; T='internal/stm/transition/set.go'; M='internal/stm/stm.go'; X='internal/gen/config/cpp/context.go'
CASES=[
('C29','bug',(S,'s.lastLower = unicode.IsLower(char)','s.lastLower = !unicode.IsUpper(char)')),
('C29','bug',(S,'			s.markSplit()\n\t\t\ts.lastLower = false','			s.lastLower = false')),
('C29','bug',(S,'toWrite = unicode.ToLower(toWrite)','if s.lastLower {\n\t\t\ttoWrite = unicode.ToLower(toWrite)\n\t\t}')),
('C29','bug',(S,'if i == 0 {','if i <= 1 {')),
('C29','bug',(S,'case unicode.IsUpper(char) && s.lastLower:','case unicode.IsUpper(char) && s.sb.Len() > 0:')),
('C29','ok',(S,'''	var build strings.Builder

	for i, c := range ident {
		if i == 0 {
			_, _ = build.WriteRune(unicode.ToUpper(c))
		} else {
			_, _ = build.WriteRune(c)
		}
	}

	return build.String()''','''	out := ""

	for i, c := range ident {
		if i == 0 {
			out += string(unicode.ToUpper(c))
		} else {
			out += string(c)
		}
	}

	return out''')),
('C29','ok',(S,'''	var build strings.Builder

	for i, c := range ident {
		if i == 0 {
			_, _ = build.WriteRune(unicode.ToUpper(c))
		} else {
			_, _ = build.WriteRune(c)
		}
	}

	return build.String()''','''	runes := []rune(ident)
	if len(runes) == 0 {
		return ident
	}

	return string(unicode.ToUpper(runes[0])) + string(runes[1:])''')),
('C29','ok',(S,'''		switch {
		case unicode.IsUpper(char) && s.lastLower:
			s.markSplit()
			s.addChar(char)
		case char == '_':
			s.markSplit()
			s.lastLower = false
		default:
			s.addChar(char)
		}''','''		if char == '_' {
			s.markSplit()
			s.lastLower = false

			continue
		}

		if s.lastLower && unicode.IsUpper(char) {
			s.markSplit()
		}

		s.addChar(char)''')),
('C29','bug',(S,'			s.lastLower = false\n','')),
('C25','bug',(P,'	p.License = expandOne(p.License, name)\n','')),
('C25','bug',(P,'	p.Version = autofillOne(p.Version, "0.1.0")','	p.Version = autofillOne(p.Version, "0.1.0")\n\tp.Depends = append(p.Depends, "roscpp")')),
('C25','bug',(P,'if input == "" {','if len(input) < 2 {')),
('C25','bug',(P,'strings.ReplaceAll(template, "${NAME}", name)','strings.Replace(template, "${NAME}", name, 1)')),
('C25','bug',(P,'p.Format = 2','if p.Format == 0 {\n\t\tp.Format = 2\n\t}')),
('C25','ok',(P,'''	p.Name = expandOne(p.Name, name)
	p.Description = expandOne(p.Description, name)
	p.Maintainer.Name = expandOne(p.Maintainer.Name, name)
	p.Maintainer.Email = expandOne(p.Maintainer.Email, name)
	p.License = expandOne(p.License, name)''','''	for _, f := range []*string{&p.Name, &p.Description, &p.Maintainer.Name, &p.Maintainer.Email, &p.License} {
		*f = expandOne(*f, name)
	}''')),
('C25','ok',(P,'strings.ReplaceAll(template, "${NAME}", name)','strings.Replace(template, "${NAME}", name, -1)')),
('C26','bug',(T,'ts.States[stateID] = append(ts.States[stateID], set.Transitions...)','ts.States[stateID] = set.Transitions')),
('C26','bug',(T,'if ts := &aggs[i]; ts.IsForChannel(set.Channel)','if ts := &aggs[i]; ts.Channel.Name == set.Channel.Name')),
('C26','bug',(M,'for _, ts := range st.TransitionSets {','for _, ts := range st.TransitionSets {\n\t\t\tif len(ts.Transitions) > 1 && ts.Channel.IsCall() {\n\t\t\t\tbreak\n\t\t\t}')),
('C26','bug',(G,'for _, ts := range machine.States[0].TransitionSets {','for _, ts := range machine.States[len(machine.States)-1].TransitionSets {')),
('C26','bug',(G,'		if tra.Channel.IsIn() {','		if !tra.Channel.IsOut() {')),
('C26','bug',(G,'c.InMerged[s] = append(c.InMerged[s], ts...)','c.InMerged[s] = append(c.InMerged[s], ts[:1]...)')),
('C26','bug',(G,'	c.HasIn = true\n','	c.HasIn = len(c.In) > 0\n')),
('C26','ok',(G,'	c.HasIn = true\n	c.In = append(c.In, t)\n','	c.In = append(c.In, t)\n	c.HasIn = len(c.In) > 0\n')),
('C26','ok',(G,'''		if tra.Channel.IsIn() {
			c.addInput(tra)
		} else {
			c.Out = append(c.Out, tra)
		}''','''		if !tra.Channel.IsIn() {
			c.Out = append(c.Out, tra)

			continue
		}

		c.addInput(tra)''')),
('C26','ok',(G,'	for _, tra := range c.All {\n','	for i := range c.All {\n\t\ttra := c.All[i]\n')),
('C26','ok',(G,'	for _, tra := range c.All {\n		c.Channels = append(c.Channels, tra.Channel)\n','	for _, tra := range c.All {\n		c.Channels = append(c.Channels, tra.Channel)\n	}\n\n	for _, tra := range c.All {\n')),
('C26','ok',(T,'''	for i := range aggs {
		if ts := &aggs[i]; ts.IsForChannel(set.Channel) {
			ts.States[stateID] = append(ts.States[stateID], set.Transitions...)

			return aggs
		}
	}
''','''	found := -1
	for i := range aggs {
		if aggs[i].IsForChannel(set.Channel) {
			found = i

			break
		}
	}

	if found >= 0 {
		states := aggs[found].States
		states[stateID] = append(states[stateID], set.Transitions...)

		return aggs
	}
''')),
('C26','ok',(M,'''	for _, st := range s.States {
		for _, ts := range st.TransitionSets {
			result = transition.AddToAggregateSets(result, st.ID, ts)
		}
	}''','''	for _, st := range s.States {
		id, sets := st.ID, st.TransitionSets
		for i := 0; i < len(sets); i++ {
			result = transition.AddToAggregateSets(result, id, sets[i])
		}
	}''')),
('C26','ok',(M,'''	for _, st := range s.States {
		for _, ts := range st.TransitionSets {
			result = transition.AddToAggregateSets(result, st.ID, ts)
		}
	}

	return result
}''','''	for _, st := range s.States {
		result = addState(result, st)
	}

	return result
}

func addState(result []transition.AggregateSet, st *State) []transition.AggregateSet {
	for _, ts := range st.TransitionSets {
		result = transition.AddToAggregateSets(result, st.ID, ts)
	}

	return result
}''')),
]
