# Loops over sorted keys instead of maps.
G='internal/gen/'
C=G+'cpp/cpp.go'
GTS="""	for name, test := range o.suite.Tests {
		dirs := o.parent.srcDirSet.Subdir(name)

		if err := o.generateTest(dirs, name, test); err != nil {"""
def gts(pre,it='names',mid='',arg='o.suite.Tests[name]'):
    return pre+"\n	for _, name := range "+it+" {\n"+mid+"		dirs := o.parent.srcDirSet.Subdir(name)\n\n		if err := o.generateTest(dirs, name, "+arg+"); err != nil {"
COL="	names := make([]string, 0, len(o.suite.Tests))\n	for name := range o.suite.Tests {\n		names = append(names, name)\n	}\n\n	sort.Strings(names)\n"
DIRS="	for name := range o.suite.Tests {\n		dirs = append(dirs, o.testDirs(name)...)\n"
def hlp(body): return "func (o *OnSuite) generateTestSpecific() error {", body+"\n\nfunc (o *OnSuite) generateTestSpecific() error {"
HF="// sortedNames gets the sorted keys of tests.\nfunc sortedNames(tests map[string]*stm.Stm) []string {\n	names := make([]string, 0, len(tests))\n\n	for name := range tests {\n		names = append(names, name)\n	}\n\n	sort.Strings(names)\n\n	return names\n}"
HG="// sortedNames gets the sorted keys of tests.\nfunc sortedNames[V any](tests map[string]V) []string {\n	names := make([]string, 0, len(tests))\n\n	for name := range tests {\n		names = append(names, name)\n	}\n\n	sort.Strings(names)\n\n	return names\n}"
HM="// names gets the sorted names of the tests.\nfunc (o *OnSuite) names() []string {\n	names := make([]string, 0, len(o.suite.Tests))\n\n	for name := range o.suite.Tests {\n		names = append(names, name)\n	}\n\n	sort.Strings(names)\n\n	return names\n}"
HB=HF.replace("		names = append(names, name)","		if name == \"\" {\n			continue\n		}\n		names = append(names, name)")
def H(h): return (C,)+hlp(h)
CG=G+'catkin/catkin.go'
CGO="	for name := range o.suite.Tests {\n		dirs := o.parent.srcDirSet.Subdir(name)\n"
PR=G+'config/cpp/context.go'
B='internal/stm/builder.go'
UT="	for _, test := range tests {\n		for cName"
BM="	for name, test := range s {\n		m, err := b.Build(test)"
bug=lambda i,*e:(i,'bug',list(e)); ok=lambda i,*e:(i,'ok',list(e))
CASES=sum([
 [ok(i,(C,GTS,gts(COL))) for i in ('C20','C21','C22','C24')],
 [ok('C20',(C,GTS,gts('','sortedNames(o.suite.Tests)')),H(HF))],
 [ok('C20',(C,GTS,gts('','sortedNames(o.suite.Tests)')),H(HG),(C,DIRS,DIRS.replace("name := range o.suite.Tests","_, name := range sortedNames(o.suite.Tests)")))],
 [ok('C20',(C,GTS,gts('','o.names()')),H(HM),(C,DIRS,DIRS.replace("name := range o.suite.Tests","_, name := range o.names()")))],
 [ok('C20',(C,GTS,gts('','slices.Sorted(maps.Keys(o.suite.Tests))')))],
 [ok('C20',(C,GTS,gts(COL,mid='		test := o.suite.Tests[name]\n',arg='test')))],
 [ok('C20',(C,GTS,gts('	names := structure.SortedKeys(o.suite.Tests)\n')),('internal/structure/map.go','package structure\n','package structure\n\nimport "sort"\n\n// SortedKeys gets the keys of m in order.\nfunc SortedKeys[V any](m map[string]V) []string {\n	keys := make([]string, 0, len(m))\n\n	for k := range m {\n		keys = append(keys, k)\n	}\n\n	sort.Strings(keys)\n\n	return keys\n}\n'))],
 [ok('C20',(C,DIRS,COL+"\n	for _, name := range names {\n		dirs = append(dirs, o.testDirs(name)...)\n"))],
 [ok('C20',(CG,CGO,COL+"\n	for _, name := range names {\n		dirs := o.parent.srcDirSet.Subdir(name)\n"))],
 [ok('C20',(PR,"	for cname, ctype := range types {\n","	names := make([]string, 0, len(types))\n	for name := range types {\n		names = append(names, name)\n	}\n\n	sort.Strings(names)\n\n	for _, cname := range names {\n		ctype := types[cname]\n"))],
 [ok('C07',(B,UT,"	names := make([]string, 0, len(tests))\n	for name := range tests {\n		names = append(names, name)\n	}\n\n	sort.Strings(names)\n\n	for _, name := range names {\n		test := tests[name]\n\n		for cName"))],
 [ok('C07',(B,UT,"	for _, name := range slices.Sorted(maps.Keys(tests)) {\n		test := tests[name]\n\n		for cName"))],
 [ok('C07',(B,BM,"	for _, name := range slices.Sorted(maps.Keys(s)) {\n		m, err := b.Build(s[name])"))],
 [bug('C20',(C,GTS,gts(COL,'names[1:]')))],
 [bug('C20',(C,GTS,gts(COL.replace("		names = append","		if name == \"\" {\n			continue\n		}\n		names = append"))))],
 [bug('C20',(C,GTS,gts(COL,mid='		if len(dirs0) > 9 {\n			break\n		}\n		dirs0 = append(dirs0, name)\n').replace("\n	for _, name","\n	var dirs0 []string\n\n	for _, name")))],
 [bug('C20',(C,GTS,gts(COL,arg='o.suite.Tests[names[0]]')))],
 [bug('C20',(C,GTS,gts('','sortedNames(o.suite.Tests)')),H(HB))],
 [bug('C20',(C,GTS,gts(COL.replace("	sort.Strings(names)\n","	sort.Strings(names)\n	names = names[:len(names)-1]\n"))))],
 [bug('C07',(B,BM,"	names := make([]string, 0, len(s))\n	for name := range s {\n		names = append(names, name)\n	}\n\n	sort.Strings(names)\n\n	for _, name := range names {\n		m, err := b.Build(s[names[len(names)-1]])"))],
],[])
