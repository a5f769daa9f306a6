MS='cmd/rtcg-make-stms/main.go'; RT='cmd/rtcg-read-traces/main.go'; GM='cmd/rtcg-gen/main.go'
CP='internal/gen/cpp/copy.go'; CF='internal/gen/config/config.go'; CA='internal/gen/catkin/catkin.go'; TE='internal/gen/templating/templating.go'
CL='internal/cli/cli.go'; SE='internal/serial/serial.go'; SU='internal/stm/suite.go'; BU='internal/stm/builder.go'
CASES=[
('C11','bug',(MS,'	return suite, errors.Join(err, file.Close())','	if err != nil {\n		err = file.Close()\n	}\n\n	return suite, errors.Join(err)')),
('C11','bug',(MS,'	return suite, errors.Join(err, file.Close())','	err = errors.Join(file.Close())\n\n	return suite, err')),
('C11','bug',(CL,'	os.Exit(1)\n','	if errors.Is(err, ErrBadArgs) {\n		os.Exit(1)\n	}\n')),
('C11','bug',(CL,'	_, _ = fmt.Fprintln(os.Stderr, err)\n','	_, _ = fmt.Fprintln(os.Stdout, err)\n')),
('C11','bug',(CA,'	return errors.Join(err, file.Close())','	return file.Close()')),
('C11','bug',(TE,'	return errors.Join(err, file.Close())','	_ = file.Close()\n\n	return err')),
('C11','bug',(TE,'	return errors.Join(err, file.Close())','	defer file.Close()\n\n	return err')),
('C11','ok',(TE,'	return errors.Join(err, file.Close())','	if cerr := file.Close(); cerr != nil && err == nil {\n		err = cerr\n	}\n\n	return err')),
('C11','ok',(TE,'	return errors.Join(err, file.Close())','	if cerr := file.Close(); err == nil {\n		err = cerr\n	}\n\n	return err')),
('C11','bug',(TE,'	return errors.Join(err, file.Close())','	if cerr := file.Close(); cerr != nil {\n		return nil\n	}\n\n	return err')),
('C22','bug',(TE,'	return errors.Join(err, file.Close())','	if err != nil {\n		return err\n	}\n\n	return file.Close()')),
('C22','ok',(TE,'	err = tmpl.ExecuteTemplate(file, tmplName, ctx)\n\n	return errors.Join(err, file.Close())','	return errors.Join(tmpl.ExecuteTemplate(file, tmplName, ctx), file.Close())')),
('C22','ok',(TE,'''	err = tmpl.ExecuteTemplate(file, tmplName, ctx)

	return errors.Join(err, file.Close())
}''','''	return fill(file, tmplName, tmpl, ctx)
}

func fill(file *os.File, tmplName string, tmpl *template.Template, ctx any) (err error) {
	defer func() {
		err = errors.Join(err, file.Close())
	}()

	return tmpl.ExecuteTemplate(file, tmplName, ctx)
}''')),
('C11','ok',(TE,'''	err = tmpl.ExecuteTemplate(file, tmplName, ctx)

	return errors.Join(err, file.Close())
}''','''	return fill(file, tmplName, tmpl, ctx)
}

func fill(file *os.File, tmplName string, tmpl *template.Template, ctx any) (err error) {
	defer func() {
		err = errors.Join(err, file.Close())
	}()

	return tmpl.ExecuteTemplate(file, tmplName, ctx)
}''')),
('C22','bug',(CP,'	return errors.Join(err, dst.Close(), src.Close())','	return errors.Join(err, dst.Close())')),
('C22','bug',(CP,'	return errors.Join(err, dst.Close(), src.Close())','	return errors.Join(err, src.Close(), dst.Close(), src.Close())')),
('C22','bug',(CF,'		return nil, errors.Join(err, file.Close())','		return nil, err')),
('C22','bug',(CF,'	if err := xml.NewDecoder(file).Decode(&config); err != nil {','	defer file.Close()\n\n	if err := xml.NewDecoder(file).Decode(&config); err != nil {')),
('C22','ok',(CF,'''		return nil, errors.Join(err, file.Close())
	}

	if err := file.Close(); err != nil {
		return nil, fmt.Errorf("couldn't close config file %q: %w", path, err)
	}
''','''		return nil, err
	}
'''),(CF,'	if err := xml.NewDecoder(file).Decode(&config); err != nil {','	defer file.Close()\n\n	if err := xml.NewDecoder(file).Decode(&config); err != nil {'),(CF,'	"errors"\n','')),
('C11','ok',(CF,'''		return nil, errors.Join(err, file.Close())
	}

	if err := file.Close(); err != nil {
		return nil, fmt.Errorf("couldn't close config file %q: %w", path, err)
	}
''','''		return nil, err
	}
'''),(CF,'	if err := xml.NewDecoder(file).Decode(&config); err != nil {','	defer file.Close()\n\n	if err := xml.NewDecoder(file).Decode(&config); err != nil {'),(CF,'	"errors"\n','')),
('C11','bug',(SE,'	if err := j.Encode(value); err != nil {','	if err := j.Encode(value); err != nil && writer == nil {')),
('C11','bug',(CP,'		if err := g.copyPreludeFile(e.Name()); err != nil {\n			return err\n		}\n','		if err := g.copyPreludeFile(e.Name()); err != nil {\n			break\n		}\n')),
('C11','bug',(CP,'		if err := g.copyPreludeFile(e.Name()); err != nil {\n			return err\n		}\n	}\n\n	return nil','		err = g.copyPreludeFile(e.Name())\n	}\n\n	return err')),
('C11','ok',(CP,'		if err := g.copyPreludeFile(e.Name()); err != nil {\n			return err\n		}\n	}\n\n	return nil','		err = errors.Join(err, g.copyPreludeFile(e.Name()))\n	}\n\n	return err')),
('C11','ok',(CP,'		if err := g.copyPreludeFile(e.Name()); err != nil {\n			return err\n		}\n	}\n\n	return nil','		if err = g.copyPreludeFile(e.Name()); err != nil {\n			break\n		}\n	}\n\n	return err')),
('C11','bug',(GM,'	if err := g.OnSuite(suite).Generate(); err != nil {\n		return fmt.Errorf("couldn\'t generate: %w", err)\n	}\n','	if err := g.OnSuite(suite).Generate(); err != nil {\n		fmt.Fprintln(os.Stderr, err)\n	}\n')),
('C11','ok',(RT,'	return traces, errors.Join(err, file.Close())','	defer file.Close()\n\n	if len(traces) > 0 {\n		return traces, nil\n	}\n\n	return traces, err')),
('C22','bug',(RT,'	return traces, errors.Join(err, file.Close())','	return traces, err')),
('C22','bug',(CP,'		return errors.Join(err, src.Close())\n	}\n\n	if _, err','		return err\n	}\n\n	if _, err')),
('C22','bug',(CP,'	if _, err = io.Copy(dst, src); err != nil {','	cerr := src.Close()\n	if _, err = io.Copy(dst, src); err != nil {'),(CP,'dst.Close(), src.Close())','dst.Close(), cerr)')),
]
CASES=[c if isinstance(c[2],list) else (c[0],c[1],list(c[2:])) for c in CASES]
