CP='internal/gen/cpp/copy.go'; CPG='internal/gen/cpp/gen.go'; K='internal/gen/catkin/catkin.go'; TE='internal/gen/templating/templating.go'
B='internal/stm/builder.go'; SE='internal/serial/serial.go'; MS='cmd/rtcg-make-stms/main.go'; G='internal/gen/gen.go'; M='internal/gen/makefile/makefile.go'; FU='internal/gen/cpp/func.go'
CASES=[
('C13','bug',(SE,'	j := json.NewEncoder(writer)\n','	_ = os.WriteFile("debug.json", nil, 0o600)\n	j := json.NewEncoder(writer)\n')),
('C13','bug',(MS,'	file, err := cli.OpenFileOrStdin(a.inputFile)','	file, err := os.OpenFile(a.inputFile, os.O_RDWR|os.O_CREATE, 0o600)')),
('C13','bug',(CP,'	src, err := os.Open(srcPath)','	src, err := os.OpenFile(srcPath, os.O_RDWR|os.O_CREATE, 0o600)')),
('C13','bug',(CP,'	dstPath := filepath.Join(dirs.Output, name)','	dstPath := filepath.Join(dirs.Output, "..", name)')),
('C13','bug',(K,'file, err := os.Create(filepath.Join(dir, "package.xml"))','file, err := os.Create(filepath.Join(filepath.Dir(dir), "package.xml"))')),
('C13','bug',(G,'dirs.Subdir(cfgs[i].Variant.String())','dirs')),
('C13','bug',(FU,'import (','import (\n	"os"\n'),(FU,'// ','func init() { os.Remove("x") }\n\n// ')),
('C20','bug',(B,'	b.nodeNum = 0\n','')),
('C20','bug',(B,'	b.stm = Stm{States: []*State{}, Tests: structure.NewSet[string](), Types: map[string]*rstype.RsType{}}','	b.stm.States = []*State{}\n	if b.stm.Types == nil {\n		b.stm = Stm{States: []*State{}, Tests: structure.NewSet[string](), Types: map[string]*rstype.RsType{}}\n	}\n')),
('C20','bug',(B,'	b.stack.Clear()\n','')),
('C20','bug',(K,'	pkg := *o.parent.config.Package\n	pkg.Expand(name)\n','	o.parent.config.Package.Expand(name)\n	pkg := *o.parent.config.Package\n')),
('C20','bug',(B,'	return unify','	return unify') if False else (B,'func (b *Builder) ensureNodeID','var counter uint64\n\nfunc (b *Builder) ensureNodeID'),(B,'	b.nodeNum++\n','	b.nodeNum++\n	counter++\n')),
('C20','bug',(B,'		suite[name] = &m','		for c, t := range m.Types {\n			if len(suite) > 0 && t == nil {\n				m.Types[c] = nil\n			}\n		}\n		suite[name] = &m\n		if len(suite) > 3 {\n			m.States = m.States[:1]\n		}\n')),
('C20','ok',(B,'		m, err := b.Build(test)','		var fresh Builder\n\n		m, err := fresh.Build(test)')),
]
CASES=[c if isinstance(c[2],list) else (c[0],c[1],list(c[2:])) for c in CASES]
