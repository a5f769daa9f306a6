# Edits that only show on the second run, with unusual input, or on another platform.
def c(k): return lambda p,*e: [(x,k,list(e)) for x in p.split()]
bug,ok=c('bug'),c('ok')
G='internal/gen/'; T='internal/trace/'; L='internal/testlang/'; S='internal/stm/'
TP=G+'templating/templating.go'; CP=G+'cpp/copy.go'; CK=G+'catkin/catkin.go'
CASES=sum([
 bug('C14',(TP,'os.Create(path)','os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o666)')),
 bug('C14',(CP,'os.Create(outFile)','os.OpenFile(outFile, os.O_WRONLY|os.O_CREATE, 0o644)')),
 bug('C25',(CK,'os.Create(filepath.Join(dir, "package.xml"))','os.OpenFile(filepath.Join(dir, "package.xml"), os.O_RDWR|os.O_CREATE, 0o666)')),
 bug('C14',(TP,'os.Create(path)','os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_APPEND, 0o666)')),
 bug('C14',(TP,'os.Create(path)','os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o666)')),
 ok('C14 C22',(TP,'os.Create(path)','os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)')),
 bug('C01',(T+'read.go','	cr.Comment = \'#\'\n','	cr.Comment = \'#\'\n	cr.LazyQuotes = true\n')),
 ok('C01',(T+'read.go','	cr.Comment = \'#\'\n','	cr.Comment = \'#\'\n	cr.ReuseRecord = true\n')),
 bug('C20',(S+'builder.go','	b.nodeNum = 0\n','')),
 bug('C20',(S+'builder.go','	b.stack.Clear()\n','')),
 ok('C24 C13',(G+'gen.go','''	for i := range cfgs {
		if varSubs, err = initCppVariant(&cfgs[i], dirs.Subdir(cfgs[i].Variant.String())); err != nil {''','''	for _, config := range cfgs {
		config := config
		if varSubs, err = initCppVariant(&config, dirs.Subdir(config.Variant.String())); err != nil {''')),
 ok('C24 C13 C33',(G+'gen.go',"""	for i := range cfgs {
		if varSubs, err = initCppVariant(&cfgs[i], dirs.Subdir(cfgs[i].Variant.String())); err != nil {""","""	for _, config := range cfgs {
		if varSubs, err = initCppVariant(&config, dirs.Subdir(config.Variant.String())); err != nil {""")),
 bug('C13 C24',(G+'gen.go','dirs.Subdir(cfgs[i].Variant.String())','dirs.Subdir(cfgs[0].Variant.String())')),
 bug('C10',('internal/structure/set.go','	s.contents = map[T]bool{}\n\n	s.Add(values...)','	if s.contents == nil {\n		s.contents = map[T]bool{}\n	}\n	s.Add(values...)')),
 bug('C10',(S+'verdict/verdict.go','	*v = make(Verdict, len(strMap))\n','	if *v == nil {\n		*v = make(Verdict, len(strMap))\n	}\n')),
 bug('C13',(G+'gencommon/dirset.go','Output: filepath.Join(d.Output, subdir)','Output: filepath.Join(d.Output, filepath.Base(subdir))')),
 bug('C27',(G+'config/cpp/context.go','		if ok {\n','		if ok && override != ctype.String() {\n')),
 bug('C27',(G+'config/cpp/cpp.go','		cmap[over.Name] = over.Type\n','		if _, dup := cmap[over.Name]; !dup {\n			cmap[over.Name] = over.Type\n		}\n')),
 bug('C01',(T+'read.go','strings.Cut(cell, ":"); ok {','strings.Cut(cell, ":"); ok && name != "" {')),
 bug('C01',(T+'read.go','	if name, rest, ok := strings.Cut(cell, ":"); ok {','	if name, rest, ok := strings.Cut(cell, ":"); ok && !strings.Contains(name, ".") {')),
 bug('C07',(S+'builder.go','		b.stm.Tests.Add(np.Tests...)\n','		if np.Outcome != testlang.OutcomeInc {\n			b.stm.Tests.Add(np.Tests...)\n		}\n')),
 bug('C20',(S+'builder.go','	if n.ID != "" {\n','	if n.ID != "" && n.ID != "initial" {\n')),
 bug('C06',(S+'builder.go','	if n.ID != "" {\n		return','	if n.ID != "" && b.nodeNum > 0 {\n		return')),
 bug('C24',(G+'gen.go','	if config.Makefile == nil {','	if config.Makefile == nil || config.Catkin != nil {')),
 bug('C18',(G+'gen.go','	if config.Makefile == nil {','	if config.Makefile == nil || config.Variant == cfg.VariantRos {')),
 bug('C12',('cmd/rtcg-gen/main.go','	a.outputDir = filepath.Clean(a.outputDir)\n','')),
 bug('C33',(G+'config/config.go','	if config.Directory == "" {','	if config.Directory == "" || config.Directory == "." {')),
 bug('C33',(G+'config/config.go','	if config.Directory == "" {\n','	if !filepath.IsAbs(config.Directory) {\n')),
 bug('C08',(L+'rstype/unify.go','	case lhs == nil:\n		return rhs, nil\n','	case lhs == nil, lhs.IsEmpty():\n		return rhs, nil\n')),
 bug('C02',(T+'trace.go','	for i := 0; ; i++ {\n		name := synthesiseName(base, i)','	for i := len(result); ; i++ {\n		name := synthesiseName(base, i)')),
 bug('C02',(T+'trace.go','	case base == "test":','	case base == "test" && attempt < 10:')),
 bug('C03',(T+'expand.go','	node = testlang.Root(node)\n	node.Mark(name)\n','	node = testlang.Root(node)\n\n	if len(t.Prefix) > 0 {\n		node.Mark(name)\n	}\n')),
 bug('C04',(T+'collapse.go','		collapsed.Forbid = *test.Event\n','		if collapsed.Forbid.Channel.IsEmpty() {\n			collapsed.Forbid = *test.Event\n		}\n')),
 bug('C05',(L+'walk.go','		for i := len(node.Next) - 1; 0 <= i; i-- {','		for i := len(node.Next) - 1; 0 < i || i == 0 && len(node.Next) < 64; i-- {')),
 bug('C05',('internal/validate/node.go','	if len(node.Next) != 0 {','	if len(node.Next) > 1 {')),
 bug('C26',(S+'transition/set.go','			ts.States[stateID] = append(ts.States[stateID], set.Transitions...)','			if _, dup := ts.States[stateID]; !dup {\n				ts.States[stateID] = set.Transitions\n			}')),
 bug('C26',(G+'gencommon/context.go','		c.InMerged[s] = append(c.InMerged[s], ts...)','		c.InMerged[s] = ts')),
 bug('C23',('internal/cli/cli.go','_, _ = fmt.Fprintln(os.Stderr, err)\n','_, _ = fmt.Fprintln(os.Stdout, err)\n')),
 bug('C21',('internal/serial/serial.go','	if err := j.Decode(dest); err != nil {','	if err := j.Decode(dest); err != nil && !errors.Is(err, io.EOF) {')),
 bug('C21',('internal/serial/serial.go','	if err := j.Decode(dest); err != nil {','	if err := j.Decode(dest); err != nil && !errors.Is(err, io.ErrUnexpectedEOF) {')),
 bug('C10',('internal/serial/serial.go','	j := json.NewDecoder(reader)\n','	j := json.NewDecoder(reader)\n	j.DisallowUnknownFields()\n')),
 bug('C09',(L+'value/int.go','string(text), intValueBase, 64)','string(text), 0, 64)')),
 bug('C09',(L+'value/int.go','string(text), intValueBase, 64)','string(text), intValueBase, 32)')),
 bug('C09',(L+'value/int.go','	*((*int64)(i)), err = strconv.ParseInt(string(text), intValueBase, 64)\n\n	if err != nil {','	*((*int64)(i)), err = strconv.ParseInt(string(text), intValueBase, 64)\n	if err != nil && !errors.Is(err, strconv.ErrRange) {')),
 bug('C08',(L+'value/int.go','	if 0 <= *i {','	if 0 < *i {')),
],[])
