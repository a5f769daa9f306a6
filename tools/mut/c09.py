CH='internal/testlang/channel/channel.go'; EV='internal/testlang/event.go'; VA='internal/testlang/value/value.go'; VI='internal/testlang/value/int.go'; VE='internal/testlang/value/enum.go'; KE='internal/testlang/channel/kind_enum.go'; RT='internal/testlang/rstype/rstype.go'; OE='internal/testlang/outcome_enum.go'; SV='internal/stm/verdict/verdict_enum.go'
CASES=[
('C09','bug',[(CH,'[]byte(EventSep), numEventParts)','[]byte(EventSep), numChannelParts)')]),
('C09','bug',[(CH,'[]byte(EventSep), numEventParts)','[]byte(EventSep), numEventParts+1)'),(CH,'numChannelParts || numEventParts < numFields','numChannelParts || numEventParts+1 < numFields')]),
('C09','bug',[(CH,'c.Name = string(bytes.TrimSpace(fields[0]))','c.Name = string(fields[0])')]),
('C09','bug',[(CH,'kindBytes := bytes.TrimSpace(fields[1])','kindBytes := fields[1]')]),
('C09','bug',[(VI,'ParseInt(string(text), intValueBase, 64)','ParseInt(string(text), 0, 64)')]),
('C09','bug',[(VI,'ParseInt(string(text), intValueBase, 64)','ParseInt(string(text), intValueBase, 32)')]),
('C09','bug',[(VI,'const intValueBase = 10','const intValueBase = 16')]),
('C09','bug',[(VA,'''		func() Valuable {
			tmp := IntValue(0)

			return tryUnmarshal(&tmp, text)
		},
		func() Valuable {
			tmp := EnumValue("")

			return tryUnmarshal(&tmp, text)
		},
''','''		func() Valuable {
			tmp := EnumValue("")

			return tryUnmarshal(&tmp, text)
		},
		func() Valuable {
			tmp := IntValue(0)

			return tryUnmarshal(&tmp, text)
		},
''')]),
('C09','bug',[(VE,'*e = EnumValue(text)','*e = EnumValue(bytes.ToLower(text))'),(VE,'import (','import (\n\t"bytes"')]),
('C09','bug',[(VE,'return []byte(*e), nil','return []byte(e.String()), nil')]),
('C09','bug',[(EV,'if e.Value.IsEmpty() {\n\t\treturn chanBytes, nil','if e.Value.IsEmpty() || e.Channel.IsCall() {\n\t\treturn chanBytes, nil')]),
('C09','bug',[(EV,'return channel.EventSepJoin(chanBytes, val), nil','return append(append(chanBytes, \'-\'), val...), nil')]),
('C09','bug',[(CH,'if numFields == numChannelParts {','if numFields == numChannelParts || len(fields[2]) == 0 {')]),
('C09','bug',[(KE,'strings.ToLower(name)]; ok','name]; ok')]),
('C09','bug',[(KE,'_KindName[0:2]:                   KindIn','_KindName[0:2]:                   KindOut')]),
('C09','bug',[(OE,'	OutcomePass:','	OutcomeFail + 1 + OutcomePass:')]),
('C09','bug',[(RT,'return "nat", true','return "int", true')]),
('C09','bug',[(RT,'string(bytes.ToLower(text))','string(text)')]),
('C09','bug',[(RT,'case "()":','case "()", "unit":')]),
('C09','bug',[(KE,'	return Kind(0), fmt.Errorf(','	if name == "o" {\n\t\treturn KindOut, nil\n\t}\n	return Kind(0), fmt.Errorf(')]),
('C09','bug',[(VA,'text = bytes.TrimSpace(text)','text = bytes.Trim(text, " \\t\\"")')]),
('C09','ok',[(CH,'''	fields := bytes.SplitN(text, []byte(EventSep), numEventParts)

	numFields := len(fields)
	if numFields < numChannelParts || numEventParts < numFields {
		return nil, BadFieldCountError{Got: numFields}
	}

	c.Name = string(bytes.TrimSpace(fields[0]))
''','''	name, rest, found := bytes.Cut(text, []byte(EventSep))
	if !found {
		return nil, BadFieldCountError{Got: 1}
	}

	kindText, value, hasValue := bytes.Cut(rest, []byte(EventSep))

	c.Name = string(bytes.TrimSpace(name))
'''),(CH,'bytes.TrimSpace(fields[1])','bytes.TrimSpace(kindText)'),(CH,'if numFields == numChannelParts {','if !hasValue {'),(CH,'return fields[numEventParts-1], nil','return value, nil')]),
('C09','ok',[(VA,'''	for _, parser := range []func() Valuable{
		func() Valuable {
			tmp := IntValue(0)

			return tryUnmarshal(&tmp, text)
		},
		func() Valuable {
			tmp := EnumValue("")

			return tryUnmarshal(&tmp, text)
		},
	} {
		v.content = parser()
		if v.content != nil {
			return nil
		}
	}

	return fmt.Errorf("%w: input %q", ErrUnsupportedValueType, string(text))
''','''	number := IntValue(0)
	if v.content = tryUnmarshal(&number, text); v.content != nil {
		return nil
	}

	name := EnumValue("")
	if v.content = tryUnmarshal(&name, text); v.content != nil {
		return nil
	}

	return fmt.Errorf("%w: input %q", ErrUnsupportedValueType, string(text))
''')]),
('C09','ok',[(CH,'return EventSepJoin(name, kind), nil','return []byte(fmt.Sprintf("%s%s%s", name, EventSep, kind)), nil')]),
('C09','ok',[(RT,'''	case t.IsNat():
		return "nat", true
	case t.IsInt():
		return "int", true
	case t.IsReal():
		return "real", true
	case t.IsEnum():
		return "enum", true
''','''	case t.IsEnum():
		return "enum", true
	case t.IsReal():
		return "real", true
	case t.IsInt():
		return "int", true
	case t.IsNat():
		return "nat", true
''')]),
('C09','ok',[(KE,'''	if x, ok := _KindValue[name]; ok {
		return x, nil
	}
''','')]),
('C09','ok',[(KE,'''	if x, ok := _KindValue[strings.ToLower(name)]; ok {
		return x, nil
	}
''','''	for _, k := range []Kind{KindIn, KindOut, KindCall} {
		if strings.EqualFold(k.String(), name) {
			return k, nil
		}
	}
''')]),
]
