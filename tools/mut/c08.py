U='internal/testlang/rstype/unify.go'; R='internal/testlang/rstype/rstype.go'; A='internal/testlang/rstype/arithmos.go'; B='internal/stm/builder.go'; I='internal/testlang/value/int.go'; V='internal/testlang/value/value.go'; E='internal/testlang/value/enum.go'
CASES=[
('C08','bug',(A,'	if lhs <= rhs {\n		return rhs','	if lhs >= rhs {\n		return rhs')),
('C08','bug',(U,'case lhs.kind != rhs.kind','case lhs.kind > rhs.kind')),
('C08','bug',(U,'	case rhs == nil:\n		return lhs, nil','	case rhs == nil || rhs.IsEmpty():\n		return lhs, nil')),
('C08','ok',(U,'''		return Arithmos(MaxDomain(lhs.arithmosDomain, rhs.arithmosDomain)), nil''','''		if lhs.arithmosDomain < rhs.arithmosDomain {
			return rhs, nil
		}
		return lhs, nil''')),
('C08','bug',(U,'''		return Arithmos(MaxDomain(lhs.arithmosDomain, rhs.arithmosDomain)), nil''','''		lhs.arithmosDomain = MaxDomain(lhs.arithmosDomain, rhs.arithmosDomain)
		return lhs, nil''')),
('C08','bug',(I,'0 <= *i','0 < *i')),
('C08','ok',(I,'''	if 0 <= *i {
		return rstype.Arithmos(rstype.ArithmosDomainNat)
	}

	return rstype.Arithmos(rstype.ArithmosDomainInt)''','''	domain := rstype.ArithmosDomainNat
	if *i < 0 {
		domain = rstype.ArithmosDomainInt
	}

	return rstype.Arithmos(domain)''')),
('C08','bug',(V,'		return rstype.Empty()','		return rstype.Enum()')),
('C08','bug',(B,'''	if node.Event == nil {
		return nil
	}

	return b.inferEventType''','''	if node.Event == nil || node.Event.Channel.IsIn() {
		return nil
	}

	return b.inferEventType''')),
('C08','bug',(B,'''	if b.stm.Types[chanName], err = rstype.Unify(b.stm.Types[chanName], event.Value.Type()); err != nil {''','''	if b.stm.Types[chanName], err = rstype.Unify(b.stm.Types[chanName], event.Value.Type()); err != nil && event.Channel.IsOut() {''')),
('C08','ok',(B,'''rstype.Unify(b.stm.Types[chanName], event.Value.Type()); err''','''rstype.Unify(event.Value.Type(), b.stm.Types[chanName]); err''')),
('C08','ok',(B,'''rstype.Unify(cType, tmap[cName])''','''rstype.Unify(tmap[cName], cType)''')),
('C08','bug',(B,'''rstype.Unify(cType, tmap[cName])''','''rstype.Unify(cType, nil)''')),
('C08','bug',(B,'''			tmap[cName] = uType
''','''			if tmap[cName] == nil {
				tmap[cName] = uType
			}
''')),
('C08','bug',(B,'''			if err != nil {
				return nil, fmt.Errorf("couldn't reconcile types for channel %s: %w", cName, err)
			}
''','''			if err != nil {
				uType = cType
			}
''')),
('C08','ok',(B,'''	tmap := make(TypeMap)

	for _, test := range tests {
		for cName, cType := range test.Types {
			uType, err := rstype.Unify(cType, tmap[cName])
			if err != nil {
				return nil, fmt.Errorf("couldn't reconcile types for channel %s: %w", cName, err)
			}

			tmap[cName] = uType
		}
	}

	return tmap, nil
''','''	tmap := make(TypeMap)

	for _, test := range tests {
		if err := tmap.merge(test.Types); err != nil {
			return nil, err
		}
	}

	return tmap, nil
}

func (t TypeMap) merge(other TypeMap) (err error) {
	for cName, cType := range other {
		if t[cName], err = rstype.Unify(cType, t[cName]); err != nil {
			return fmt.Errorf("couldn't reconcile types for channel %s: %w", cName, err)
		}
	}

	return nil
''')),
('C08','ok',(B,'''	chanName := event.Channel.Name

	if b.stm.Types[chanName], err = rstype.Unify(b.stm.Types[chanName], event.Value.Type()); err != nil {
		return fmt.Errorf("incompatible type information for %s: %w", chanName, err)
	}
''','''	chanName := event.Channel.Name
	old, known := b.stm.Types[chanName]
	typ := event.Value.Type()
	if known {
		if typ, err = rstype.Unify(old, typ); err != nil {
			return fmt.Errorf("incompatible type information for %s: %w", chanName, err)
		}
	}
	b.stm.Types[chanName] = typ
''')),
('C08','ok',(B,'''	if suite.Types, err = unifyTypes(suite.Tests); err != nil {
		return nil, err
	}

	return &suite, nil''','''	suite.Types, err = unifyTypes(suite.Tests)
	if err != nil {
		return nil, err
	}

	return &suite, err''')),
]
