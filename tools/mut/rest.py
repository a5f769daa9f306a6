# Functions that the other files leave alone.
G='internal/gen/'; T='internal/testlang/'; S='internal/stm/'
ok=lambda i,*e:(i,'ok',list(e))
FN=G+'cpp/func.go'
CASES=[
 ok('C34',('internal/factorise/factorise.go','	return testlang.TestPoint(f.Event, f.Test)','	event, test := f.Event, f.Test\n\n	return testlang.TestPoint(event, test)')),
 ok('C18',(G+'catkin/template.go','''	testFiles := []templating.File{
		{Dir: "", Name: "CMakeLists.txt", Desc: "package cmake file", Glob: "CMakeLists.txt.tmpl"},
	}

	builder := templating.SetBuilder{
		Srcs: []templating.Source{{
			Name: "",
			Src:  templates,
		}},
		Funcs: template.FuncMap{},
	}
''','''	const name = "CMakeLists.txt"

	var builder templating.SetBuilder

	builder.Funcs = make(template.FuncMap)
	builder.Srcs = append(builder.Srcs, templating.Source{Src: templates})

	testFiles := []templating.File{{Name: name, Desc: "package cmake file", Glob: name + ".tmpl"}}
''')),
 ok('C24',(G+'gen.go','''	if config.Catkin == nil {
		return nil, nil
	}

	gen, err := catkin.New(config, dirs)
	if err != nil {
		return nil, fmt.Errorf("couldn't init Catkin generator: %w", err)
	}

	return []subgen.Subgenerator{gen}, nil''','''	var subs []subgen.Subgenerator

	if config.Catkin != nil {
		gen, err := catkin.New(config, dirs)
		if err != nil {
			return nil, fmt.Errorf("couldn't init Catkin generator: %w", err)
		}

		subs = append(subs, gen)
	}

	return subs, nil''')),
 ok('C24',(G+'gen.go','''	for _, fun := range []genFunc{
		initCppMain,
		initCppCatkin,
		initCppMakefile,
	} {
		if stepSubs, err = fun(config, dirs); err != nil {
			return nil, err
		}

		varSubs = append(varSubs, stepSubs...)
	}

	return varSubs, nil''','''	if varSubs, err = initCppMain(config, dirs); err != nil {
		return nil, err
	}

	if stepSubs, err = initCppCatkin(config, dirs); err != nil {
		return nil, err
	}

	varSubs = append(varSubs, stepSubs...)

	if stepSubs, err = initCppMakefile(config, dirs); err != nil {
		return nil, err
	}

	return append(varSubs, stepSubs...), nil''')),
 ok('C24',(G+'gen.go','''	subgens := make([]subgen.OnSuite, len(g.subgens))

	for i, subg := range g.subgens {
		subgens[i] = subg.OnSuite(suite)
	}
''','''	subgens := make([]subgen.OnSuite, 0, len(g.subgens))

	for _, subg := range g.subgens {
		subgens = append(subgens, subg.OnSuite(suite))
	}
''')),
 ok('C14',(G+'gen.go','''	if err := o.mkdirs(); err != nil {
		return err
	}

	if err := o.runSubgens(); err != nil {
		return err
	}

	return nil''','''	for _, step := range []func() error{o.mkdirs, o.runSubgens} {
		if err := step(); err != nil {
			return err
		}
	}

	return nil''')),
 ok('C13',(G+'gencommon/dirset.go','''	return DirSet{
		Input:  filepath.Join(d.Input, subdir),
		Output: filepath.Join(d.Output, subdir),
	}''','''	sub := d
	sub.Input = filepath.Join(sub.Input, subdir)
	sub.Output = sub.OutputPath(subdir)

	return sub''')),
 ok('C18',(G+'makefile/makefile.go','	ctx := NewContext(o.suite, o.cctx)\n','	var ctx Context\n	ctx.Tests = o.suite.Tests\n	ctx.Context = o.cctx\n'),(G+'makefile/makefile.go','o.parent.template, ctx)','o.parent.template, &ctx)')),
 ok('C30',(FN,'	return convert("to", cha)','	return "to" + strmanip.UpcaseFirst(cha)'),(FN,'	return convert("from", cha)','	return "from" + strmanip.UpcaseFirst(cha)'),(FN,'''func convert(dir, cha string) string {
	return dir + strmanip.UpcaseFirst(cha)
}

''','')),
 ok('C29',(FN,'	return strmanip.UpcaseFirst(cha) + "Msg"','	return typeName(cha, "Msg")'),(FN,'	return strmanip.UpcaseFirst(cha) + "Val"','	return typeName(cha, "Val")'),(FN,'// ConvertTo gets','func typeName(cha, suffix string) string {\n	return fmt.Sprintf("%s%s", strmanip.UpcaseFirst(cha), suffix)\n}\n\n// ConvertTo gets')),
 ok('C16',(FN,'	return strings.ToUpper(fmt.Sprint(variant))','	name := fmt.Sprintf("%v", variant)\n\n	return strings.ToUpper(name)')),
 ok('C16',(FN,'		return fmt.Sprintf("\\"%s\\"", Escape(val.StringValue()))','		return strconv.Quote(val.StringValue())')),
 ok('C16',(FN,'''	typ := val.Type()

	if typ.IsEnum() {
		return fmt.Sprintf("\\"%s\\"", Escape(val.StringValue()))
	}

	return val.StringValue()''','''	text := val.StringValue()

	if val.Type().IsEnum() {
		text = `"` + Escape(text) + `"`
	}

	return text''')),
 ok('C30',(FN,'''	quoted := strconv.Quote(text)

	return quoted[1 : len(quoted)-1]''','''	return strings.TrimSuffix(strings.TrimPrefix(strconv.Quote(text), "\\""), "\\"")''')),
 ok('C30',(FN,'	return "rtcg::" + localEnumName(name, variant)','	return localEnumName("rtcg::"+name, variant)')),
 ok('C30',(FN,'''	switch {
	case rsType.IsEnum():
		return "std::string"
	case rsType.IsNat():
		return "unsigned int"
	case rsType.IsInt():
		return "int"
	case rsType.IsReal():
		return "double"
	default:
		return "void *"
	}''','''	if rsType.IsEnum() {
		return "std::string"
	}

	if rsType.IsReal() {
		return "double"
	}

	if rsType.IsInt() {
		return "int"
	}

	if rsType.IsNat() {
		return "unsigned int"
	}

	return "void *"''')),
 ok('C22',(G+'cpp/copy.go','''	other, err := os.Stat(path)
	if errors.Is(err, fs.ErrNotExist) {
		return false, nil
	}

	if err != nil {
		return false, fmt.Errorf("couldn't inspect file %q: %w", path, err)
	}
''','''	other, err := os.Stat(path)

	switch {
	case errors.Is(err, fs.ErrNotExist):
		return false, nil
	case err != nil:
		return false, fmt.Errorf("couldn't inspect file %q: %w", path, err)
	}
''')),
 ok('C22',(G+'cpp/copy.go','''	src, err := prelude.Open(path.Join(preludeMount, name))
''','''	from := path.Join(preludeMount, name)

	src, err := prelude.Open(from)
''')),
 ok('C15',(G+'templating/set.go','''	tmpl := template.New(file.Name)
	tmpl = tmpl.Funcs(b.Funcs)
	tmpl = Funcs(tmpl)
''','''	tmpl := Funcs(template.New(file.Name).Funcs(b.Funcs))
''')),
 ok('C15',(G+'templating/set.go','''	tset := make(Set, len(files))

	for _, file := range files {
		tmpl, err := b.buildFile(file)
		if err != nil {
			return nil, err
		}

		tset[file.Name] = tmpl
	}
''','''	tset := Set{}

	for i := range files {
		file := &files[i]

		tmpl, err := b.buildFile(*file)
		if err != nil {
			return nil, err
		}

		tset[file.Name] = tmpl
	}
''')),
 ok('C15',(G+'templating/generator.go','''	tset, err := builder.BuildFiles(files)
	if err != nil {
		return nil, err
	}

	return &Generator{Files: files, Templates: tset}, nil''','''	var (
		gen Generator
		err error
	)

	gen.Files = files

	if gen.Templates, err = builder.BuildFiles(files); err != nil {
		return nil, err
	}

	return &gen, nil''')),
 ok('C15',(G+'templating/generator.go','	return t.Templates.Generate(t.Files, dir, ctx)','	for _, file := range t.Files {\n		if err := t.Templates.generateFile(file, dir, ctx); err != nil {\n			return err\n		}\n	}\n\n	return nil')),
 ok('C29',('internal/strmanip/strmanip.go','''	var sp formatter
	sp.mode = formatModeLowerUnderscored

	return sp.format(ident)''','''	sp := formatter{mode: formatModeLowerUnderscored}

	return sp.format(ident)''')),
 ok('C29',('internal/strmanip/strmanip.go','''	toWrite := char
	if s.mode == formatModeLowerUnderscored {
		toWrite = unicode.ToLower(toWrite)
	}

	s.lastLower = unicode.IsLower(char)
	_, _ = s.sb.WriteRune(toWrite)''','''	s.lastLower = unicode.IsLower(char)

	if s.mode == formatModeLowerUnderscored {
		char = unicode.ToLower(char)
	}

	s.sb.WriteRune(char)''')),
 ok('C29',('internal/strmanip/strmanip.go','''		switch {
		case unicode.IsUpper(char) && s.lastLower:
			s.markSplit()
			s.addChar(char)
		case char == '_':
			s.markSplit()
			s.lastLower = false
		default:
			s.addChar(char)
		}''','''		if char == '_' {
			s.markSplit()
			s.lastLower = false

			continue
		}

		if s.lastLower && unicode.IsUpper(char) {
			s.markSplit()
		}

		s.addChar(char)''')),
 ok('C26',(G+'cpp/context.go','''	genCtx := gencommon.NewContext(name, machine)

	return &Context{
		Context: genCtx,
		Cpp:     Cpp(cctx),
	}''','''	ctx := new(Context)
	ctx.Context = gencommon.NewContext(name, machine)
	ctx.Cpp = Cpp(cctx)

	return ctx''')),
 ok('C09',(T+'channel/channel.go','''	name := []byte(c.Name)
	// The only valid Channel with an empty name is an empty one, which marshals to an empty string.
	if len(name) == 0 {
		return []byte{}, nil
	}
''','''	if c.IsEmpty() {
		return []byte{}, nil
	}

	name := []byte(c.Name)
''')),
 ok('C09',(T+'channel/channel.go','	return EventSepJoin(name, kind), nil','	return []byte(string(name) + EventSep + string(kind)), nil')),
 ok('C09',(T+'channel/channel.go','''	_, err := c.UnmarshalTextWithRemainder(text)

	return err''','''	if _, err := c.UnmarshalTextWithRemainder(text); err != nil {
		return err
	}

	return nil''')),
 ok('C09',(T+'channel/channel.go','	return strings.Join([]string{c.Name, c.Kind.String()}, EventSep)','	return c.Name + EventSep + c.Kind.String()')),
 ok('C09',(T+'channel/kind_enum.go','''	name := string(text)
	tmp, err := ParseKind(name)
	if err != nil {
		return err
	}
	*x = tmp
	return nil''','''	kind, err := ParseKind(string(text))
	if err == nil {
		*x = kind
	}

	return err''')),
 ok('C09',(T+'channel/kind_enum.go','''	if x, ok := _KindValue[name]; ok {
		return x, nil
	}
	// Case''','''	// Case''')),
 ok('C09',(T+'channel/kind_enum.go','''	if str, ok := _KindMap[x]; ok {
		return str
	}
	return fmt.Sprintf("Kind(%d)", x)''','''	switch x {
	case KindIn:
		return "in"
	case KindOut:
		return "out"
	case KindCall:
		return "call"
	}

	return fmt.Sprintf("Kind(%d)", x)''')),
 ok('C06',(S+'builder.go','''	if n.ID != "" {
		return
	}

	n.ID = testlang.NodeID(fmt.Sprintf("step%d", b.nodeNum))
	b.nodeNum++''','''	if n.ID == "" {
		n.ID = testlang.NodeID("step" + strconv.FormatUint(b.nodeNum, 10))
		b.nodeNum++
	}''')),
 ok('C06',(S+'builder.go','''	if n.ID != "" {
		return
	}

	n.ID = testlang.NodeID(fmt.Sprintf("step%d", b.nodeNum))
	b.nodeNum++''','''	if len(n.ID) == 0 {
		num := b.nodeNum
		b.nodeNum = num + 1
		n.ID = testlang.NodeID(fmt.Sprint("step", num))
	}''')),
 ok('C07',(S+'state.go','''	return &State{
		ID:             id,
		TransitionSets: nil,
		Verdict:        &verdict.Verdict{},
	}''','''	s := &State{ID: id}
	v := make(verdict.Verdict)
	s.Verdict = &v

	return s''')),
 ok('C09',(T+'value/value.go','''	if err := tmp.UnmarshalText(text); err != nil {
		return nil
	}

	return tmp''','''	if tmp.UnmarshalText(text) == nil {
		return tmp
	}

	return nil''')),
 ok('C09',(T+'value/value.go','''	for _, parser := range []func() Valuable{
		func() Valuable {
			tmp := IntValue(0)

			return tryUnmarshal(&tmp, text)
		},
		func() Valuable {
			tmp := EnumValue("")

			return tryUnmarshal(&tmp, text)
		},
	} {
		v.content = parser()
		if v.content != nil {
			return nil
		}
	}

	return fmt''','''	if v.content = tryUnmarshal(new(IntValue), text); v.IsPresent() {
		return nil
	}

	if v.content = tryUnmarshal(new(EnumValue), text); v.IsPresent() {
		return nil
	}

	return fmt''')),
 ok('C10',(T+'value/value.go','''	if v.IsEmpty() {
		return []byte("null"), nil
	}

	text, err := v.MarshalText()
	if err != nil {
		return nil, err
	}
''','''	if !v.IsPresent() {
		return json.RawMessage("null"), nil
	}

	text, err := v.content.MarshalText()
	if err != nil {
		return nil, fmt.Errorf("couldn't marshal internal representation of value: %w", err)
	}
''')),
 ok('C28',(T+'value/value.go','''	if v.IsEmpty() {
		return other.IsEmpty()
	}

	if other.IsEmpty() {
		return false
	}
''','''	if v.IsEmpty() || other.IsEmpty() {
		return v.IsEmpty() && other.IsEmpty()
	}
''')),
 ok('C28',(T+'value/value.go','''	if v.IsEmpty() {
		return other.IsEmpty()
	}

	if other.IsEmpty() {
		return false
	}
''','''	if v.IsEmpty() != other.IsEmpty() {
		return false
	}
''')),
]
