G='cmd/rtcg-gen/main.go'; M='cmd/rtcg-make-stms/main.go'; T='cmd/rtcg-read-traces/main.go'; C='internal/cli/cli.go'
clean='''	if err := a.maybeClean(a.configFile, a.inputFile, cfg.Directory); err != nil {
		return err
	}

'''
def two(c,k,e): return [(x,k,e) for x in c.split()]
CASES=[
('C12','bug',[(G,'a.configFile, a.inputFile, cfg.Directory)','a.configFile, a.inputFile)')]),
('C12','bug',[(G,'a.configFile, a.inputFile, cfg.Directory)','a.configFile, cfg.Directory)')]),
('C12','bug',[(G,'a.configFile, a.inputFile, cfg.Directory)','a.inputFile, cfg.Directory)')]),
('C12','bug',[(G,'dirContains(a.outputDir, ".")','dirContains(".", a.outputDir)')]),
('C12','bug',[(G,'dirContains(a.outputDir, input)','dirContains(input, a.outputDir)')]),
('C12','bug',[(G,'filepath.Rel(absDir, absPath)','filepath.Rel(dir, path)')]),
('C12','bug',[(G,'err == nil && filepath.IsLocal(rel), nil','err == nil && rel == ".", nil')]),
('C12','bug',[(G,'os.RemoveAll(a.outputDir)','os.RemoveAll(filepath.Dir(a.outputDir))')]),
('C12','bug',[(G,'''	if !a.clean {
		return nil
	}
''','''	if !a.clean && a.outputDir != "out" {
		return nil
	}
''')]),
('C12','bug',[(G,clean,''),(G,'''	cfg, err := config.Load(''',clean.replace(', cfg.Directory','')+'''	cfg, err := config.Load(''')]),
('C12','bug',[(G,clean,''),(G,'''	if err := g.OnSuite(suite).Generate(); err != nil {
		return fmt.Errorf("couldn't generate: %w", err)
	}
''','''	if err := g.OnSuite(suite).Generate(); err != nil {
		return fmt.Errorf("couldn't generate: %w", err)
	}

'''+clean)]),
('C12','bug',[('internal/gen/gen.go','func (o *OnSuite) Generate() error {','func (o *OnSuite) Generate() error {\n	_ = os.Remove("out.tmp")\n')]),
('C12','ok',[(G,'''	for _, input := range inputs {
		if contains, err := dirContains(a.outputDir, input); contains || err != nil {
			return errors.Join(err, fmt.Errorf("%w: %q", ErrCleanInput, input))
		}
	}
''','''	for i := 0; i < len(inputs); i++ {
		contains, err := dirContains(a.outputDir, inputs[i])
		if err != nil {
			return err
		}

		if contains {
			return fmt.Errorf("%w: %q", ErrCleanInput, inputs[i])
		}
	}
''')]),
]+two('C12 C23','bug',[(G,'\tflag.Parse()\n\n\targv := flag.Args()\n','\targv := flag.Args()\n\n\tflag.Parse()\n')])+two('C12','bug',[(G,'\tflag.BoolVar(&action.clean, "clean", false, "remove output directory before generating")\n',''),(G,'\tflag.Parse()\n','\tflag.Parse()\n\tflag.BoolVar(&action.clean, "clean", false, "remove output directory before generating")\n')])+two('C12 C23','ok',[(G,'''	a.outputDir = filepath.Clean(a.outputDir)
	a.configFile = filepath.Clean(a.configFile)
''','')])+two('C12 C23','ok',[(G,'''	stms, err := a.readSuite()
	if err != nil {
		return fmt.Errorf("couldn't read state machine suite: %w", err)
	}

	return a.generate(stms)
''','''	if stms, err := a.readSuite(); err != nil {
		return fmt.Errorf("couldn't read state machine suite: %w", err)
	} else {
		return a.generate(stms)
	}
''')])+two('C12 C23','ok',[(G,'''	var (
		action genAction
		err    error
	)

	flag.BoolVar(&action.clean, "clean", false, "remove output directory before generating")
	flag.StringVar(&action.outputDir, "output", "out", "output directory")
''','''	var (
		action genAction
		err    error
	)

	clean := flag.Bool("clean", false, "remove output directory before generating")
	output := flag.String("output", "out", "output directory")
'''),(G,'''	argv := flag.Args()
''','''	action.clean, action.outputDir = *clean, *output
	argv := flag.Args()
''')])+[
('C23','bug',[(G,'"clean", false,','"clean", true,')]),
('C23','bug',[(G,'"output", "out",','"out", "out",')]),
('C23','bug',[(G,'action.configFile = argv[0]','action.configFile = argv[len(argv)-1]')]),
('C23','bug',[(G,'const numAnonymousArgs = 2','const numAnonymousArgs = 3')]),
('C23','bug',[(M,'numAnonymousArgs+1)','numAnonymousArgs)')]),
('C23','bug',[(C,'const stdinPath = "-"','const stdinPath = ""')]),
('C23','bug',[(C,'	case maxArgs - 1:','	case maxArgs - 1, 0:')]),
('C23','bug',[(C,'	case maxArgs - 1:','	case maxArgs - 1, maxArgs + 1:')]),
('C23','bug',[(T,'fmt.Errorf("couldn\'t parse args: %w", err)','fmt.Errorf("couldn\'t parse args: %v", err)')]),
('C23','bug',[(C,'if errors.Is(err, ErrBadArgs) {','if err == ErrBadArgs {')]),
('C23','bug',[(C,'	if path == stdinPath {','	if path == stdinPath || path == "" {')]),
('C23','bug',[(C,'return args[maxArgs-1], nil','return strings.TrimSpace(args[maxArgs-1]), nil')]),
('C23','bug',[(M,'	vs, err := validate.FullSuite(s)','	if len(s) == 0 {\n		return nil\n	}\n\n	vs, err := validate.FullSuite(s)')]),
('C23','bug',[(G,'	argv := flag.Args()\n','	argv := flag.Args()\n	if len(argv) > 2 {\n		argv = argv[:2]\n	}\n')]),
('C23','ok',[(C,'''	switch len(args) {
	case maxArgs:
		// Last argument is the file.
		return args[maxArgs-1], nil
	case maxArgs - 1:
		// Missing file argument, try stdin.
		return stdinPath, nil
	default:
		return "", ErrBadArgs
	}
''','''	if len(args) < maxArgs-1 || maxArgs < len(args) {
		return "", ErrBadArgs
	}

	if len(args) == maxArgs {
		return args[maxArgs-1], nil
	}

	return stdinPath, nil
''')]),
('C23','ok',[(G,'	cli.HandleError(run(), usage)','	if err := run(); err != nil {\n		cli.HandleError(err, usage)\n	}')]),
('C23','ok',[(T,'''	fname, err := parseArgs(os.Args)
''','''	if len(os.Args) > numAnonymousArgs+1 || len(os.Args) == 0 {
		return cli.ErrBadArgs
	}
	fname, err := parseArgs(os.Args)
''')]),
]
