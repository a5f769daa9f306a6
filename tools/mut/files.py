G='internal/gen/gen.go'; C='internal/gen/cpp/cpp.go'; Y='internal/gen/cpp/copy.go'; K='internal/gen/catkin/catkin.go'; X='internal/gen/config/cpp/context.go'; XC='internal/gen/config/cpp/cpp.go'
S='internal/gen/templating/set.go'; T='internal/gen/templating/templating.go'; F='internal/gen/config/config.go'; M='internal/gen/makefile/makefile.go'; P='internal/gen/config/catkin/package.go'; D='internal/gen/gencommon/dirset.go'; CT='internal/gen/cpp/template.go'; KT='internal/gen/catkin/template.go'
unroll=(G,'''	for _, fun := range []genFunc{
		initCppMain,
		initCppCatkin,
		initCppMakefile,
	} {
		if stepSubs, err = fun(config, dirs); err != nil {
			return nil, err
		}

		varSubs = append(varSubs, stepSubs...)
	}

	return varSubs, nil
''','''	if stepSubs, err = initCppMain(config, dirs); err != nil {
		return nil, err
	}
	varSubs = append(varSubs, stepSubs...)
	if stepSubs, err = initCppCatkin(config, dirs); err != nil {
		return nil, err
	}
	varSubs = append(varSubs, stepSubs...)
	if stepSubs, err = initCppMakefile(config, dirs); err != nil {
		return nil, err
	}

	return append(varSubs, stepSubs...), nil
''')
app=(G,'''	subgens := make([]subgen.OnSuite, len(g.subgens))

	for i, subg := range g.subgens {
		subgens[i] = subg.OnSuite(suite)
	}
''','''	var subgens []subgen.OnSuite

	for _, subg := range g.subgens {
		subgens = append(subgens, subg.OnSuite(suite))
	}
''')
mk=(G,'''	for _, subg := range o.subgens {
		name := subg.Parent().Name()

		for _, dir := range subg.Dirs() {
			if err := os.MkdirAll(dir, outputDirPerms); err != nil {
				return fmt.Errorf("couldn't make %s directory at %q: %w", name, dir, err)
			}
		}
	}

	return nil
''','''	for i := 0; i < len(o.subgens); i++ {
		if err := mkdirsOne(o.subgens[i]); err != nil {
			return err
		}
	}

	return nil
}

func mkdirsOne(subg subgen.OnSuite) error {
	for _, dir := range subg.Dirs() {
		err := os.MkdirAll(dir, outputDirPerms)
		if err == nil {
			continue
		}

		return fmt.Errorf("couldn't make %s directory at %q: %w", subg.Parent().Name(), dir, err)
	}

	return nil
''')
merge=(G,'''	if err := o.checkNames(); err != nil {
		return err
	}

	if err := o.mkdirs(); err != nil {
		return err
	}

	if err := o.runSubgens(); err != nil {
		return err
	}

	return nil
''','''	for _, step := range []func() error{o.checkNames, o.mkdirs, o.runSubgens} {
		if err := step(); err != nil {
			return err
		}
	}

	return nil
''')
dirsapp=(C,'''	dirs := make([]string, 1, len(o.suite.Tests)+1)
	dirs[0] = o.parent.srcDirSet.OutputPath(preludeDir)
''','''	dirs := []string{o.parent.srcDirSet.OutputPath(preludeDir)}
''')
dirsinl=(C,'''		dirs = append(dirs, o.testDirs(name)...)
''','''		dirSet := o.parent.srcDirSet.Subdir(name)
		dirs = append(dirs, dirSet.OutputPath("include"), dirSet.OutputPath("src"))
''')
hoist=[(C,'''	if !o.cctx.HasConversion {
		return nil
	}

	return copyLocalFile''','''	return copyLocalFile'''),(C,'''	if err := o.copyConvertFile(); err != nil {
		return err
	}
''','''	if o.cctx.HasConversion {
		if err := o.copyConvertFile(); err != nil {
			return err
		}
	}
''')]
deferc=(T,'''func CreateFile(path, tmplName string, tmpl *template.Template, ctx any) error {
''','''func CreateFile(path, tmplName string, tmpl *template.Template, ctx any) (err error) {
''')
deferc2=(T,'''	err = tmpl.ExecuteTemplate(file, tmplName, ctx)

	return errors.Join(err, file.Close())
''','''	defer func() {
		err = errors.Join(err, file.Close())
	}()

	return tmpl.ExecuteTemplate(file, tmplName, ctx)
''')
copyhelper=(K,'''	pkg := *o.parent.config.Package
	pkg.Expand(name)

	if err := generatePackageXML(dirs.Output, pkg); err != nil {
''','''	pkg := o.expanded(name)

	if err := generatePackageXML(dirs.Output, pkg); err != nil {
''')
copyhelper2=(K,'''func generatePackageXML(''','''func (o *OnSuite) expanded(name string) cfg.Package {
	pkg := *o.parent.config.Package
	pkg.Expand(name)

	return pkg
}

func generatePackageXML(''')
wf=(Y,'''	if _, err = io.Copy(dst, src); err != nil {
		err = fmt.Errorf("couldn't copy file %q: %w", outFile, err)
	}

	return errors.Join(err, dst.Close(), src.Close())
''','''	_, err = io.Copy(dst, src)
	if err != nil {
		err = fmt.Errorf("couldn't copy file %q: %w", outFile, err)
	}

	dstErr := dst.Close()
	srcErr := src.Close()

	return errors.Join(err, dstErr, srcErr)
''')
proc=(X,'''		override, ok := overrides[cname]

		if ok {
			ctx.HasConversion = true
		}

		ctx.ChannelTypes''','''		override, ok := overrides[cname]
		ctx.HasConversion = ctx.HasConversion || ok

		ctx.ChannelTypes''')
proc2=(X,'''	overrides := c.ChannelMap()

	for cname''','''	overrides := make(map[string]string)
	for i := range c.Channels {
		overrides[c.Channels[i].Name] = c.Channels[i].Type
	}

	for cname''')
setidx=(S,'''	for _, file := range files {
		if err := s.generateFile(file, dir, ctx); err != nil {
			return err
		}
	}
''','''	for i := range files {
		file := files[i]
		outPath := filepath.Join(dir, file.Dir, file.Name)

		if err := CreateFile(outPath, file.Name+".tmpl", s[file.Name], ctx); err != nil {
			return fmt.Errorf("couldn't generate %s for %s: %w", file.Desc, dir, err)
		}
	}
''')
setidx2=(S,'''func (s Set) generateFile(file File, dir string, ctx any) error {
	outPath := filepath.Join(dir, file.Dir, file.Name)

	err := CreateFile(outPath, file.Name+".tmpl", s[file.Name], ctx)
	if err != nil {
		return fmt.Errorf("couldn't generate %s for %s: %w", file.Desc, dir, err)
	}

	return nil
}

''','')
load=(F,'''	if err := xml.NewDecoder(file).Decode(&config); err != nil {
		err = fmt.Errorf("couldn't decode config file %q: %w", path, err)

		return nil, errors.Join(err, file.Close())
	}

	if err := file.Close(); err != nil {
		return nil, fmt.Errorf("couldn't close config file %q: %w", path, err)
	}
''','''	err = xml.NewDecoder(file).Decode(&config)

	if err := errors.Join(err, file.Close()); err != nil {
		return nil, fmt.Errorf("couldn't read config file %q: %w", path, err)
	}
''')
dirset=(D,'func ','// Same as before.\nfunc ')
CASES=[(c,'ok',e) for c in ('C14','C24') for e in (unroll,app,mk,merge,dirsapp,dirsinl,hoist,[deferc,deferc2],[copyhelper,copyhelper2],wf,proc,proc2,[setidx,setidx2],load)]
CASES+=[('C25','ok',[copyhelper,copyhelper2])]
CASES+=[
('C24','bug',(G,'		initCppCatkin,\n','')),
('C24','bug',(G,'if varSubs, err = initCppVariant(&cfgs[i], dirs.Subdir(cfgs[i].Variant.String()))','if varSubs, err = initCppVariant(&cfgs[0], dirs.Subdir(cfgs[i].Variant.String()))')),
('C24','bug',(G,'dirs.Subdir(cfgs[i].Variant.String())','dirs.Subdir(cfgs[0].Variant.String())')),
('C24','bug',(G,'		subs = append(subs, varSubs...)','		subs = append(varSubs, subs...)')),
('C24','bug',(G,'	if config.Makefile == nil {','	if config.Makefile == nil || config.Catkin != nil {')),
('C24','bug',(F,'	if config.Directory == "" {','	if config.Directory == "" || len(config.Cpps) == 0 {')),
('C24','bug',(G,'			return fmt.Errorf("generator %s failed: %w", name, err)','			fmt.Println("generator failed", name, err)')),
('C24','bug',(M,'cctx:   g.config.Process(suite.Types)','cctx:   g.config.Process(nil)')),
('C14','bug',(G,'''	if err := o.mkdirs(); err != nil {
		return err
	}

	if err := o.runSubgens(); err != nil {
		return err
	}
''','''	if err := o.runSubgens(); err != nil {
		return err
	}

	if err := o.mkdirs(); err != nil {
		return err
	}
''')),
('C14','bug',(C,'	if o.cctx.HasConversion {','	if o.cctx.HasConversion && len(o.suite.Tests) > 1 {')),
('C14','bug',(C,'		dirSet.OutputPath("include"),\n','')),
('C14','bug',(C,'		dirs = append(dirs, o.testDirs(name)...)','		dirs = o.testDirs(name)')),
('C14','bug',(K,'dirs := o.parent.srcDirSet.Subdir(name)','dirs := o.parent.srcDirSet.Subdir(name).Subdir("pkg")')),
('C25','bug',(K,'	pkg := *o.parent.config.Package\n	pkg.Expand(name)\n','	o.parent.config.Package.Expand(name)\n	pkg := *o.parent.config.Package\n')),
('C25','bug',(P,'if err := xenc.Encode(p); err','if err := xenc.Encode(p.Name); err')),
('C25','bug',(P,'	if _, err := io.WriteString(w, xml.Header); err != nil {\n		return fmt.Errorf("couldn\'t write package XML header: %w", err)\n	}\n','')),
]
