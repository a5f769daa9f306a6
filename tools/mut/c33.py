
C='internal/gen/config/config.go'
P='internal/gen/config/catkin/package.go'
K='internal/gen/config/catkin/catkin.go'
X='internal/gen/config/cpp/cpp.go'
V='internal/gen/config/cpp/variant_enum.go'
CASES=[
('C33','bug',(C,'`xml:"directory,omitempty"`','`xml:"dir,omitempty"`')),
('C33','bug',(C,'`xml:"directory,omitempty"`','`xml:"directory,attr,omitempty"`')),
('C33','bug',(C,'`xml:"directory,omitempty"`','`xml:"-"`')),
('C33','bug',(X,'`xml:"src,attr"`','`xml:"src"`')),
('C33','bug',(X,'`xml:"system,attr"`','`xml:"is-system,attr"`')),
('C33','bug',(X,'`xml:"name,attr"`','`xml:"type,attr"`'),(X,'Type string `xml:"type,attr"`','Type string `xml:"name,attr"`')),
('C33','bug',(X,'`xml:"channel"`','`xml:"channels>channel"`')),
('C33','bug',(X,'`xml:"catkin"`','`xml:"catkin,attr"`')),
('C33','bug',(K,'`xml:"package,omitempty"`','`xml:"pkg,omitempty"`')),
('C33','bug',(P,'`xml:"email,attr"`','`xml:",chardata"`'),(P,'Name  string `xml:",chardata"`','Name  string `xml:"email,attr"`')),
('C33','bug',(P,'`xml:"buildtool_depend"`','`xml:"depend"`'),(P,'         []string `xml:"depend"`','         []string `xml:"buildtool_depend"`')),
('C33','bug',(P,'`xml:"license"`','`xml:"licence"`')),
('C33','bug',(P,'`xml:"package"`','`xml:"pkg"`')),
('C33','bug',(P,'BuildtoolDepends []string `xml:"buildtool_depend"`','BuildtoolDepends []string `xml:"build_depend"`')),
('C33','bug',(P,'`xml:"format,attr,omitempty"`','`xml:"format,omitempty"`')),
('C33','ok',(V,'	_VariantName[7:10]:                  VariantRos,','	_VariantName[7:10]:                  VariantAnimate,')),
('C33','bug',(V,'VariantAnimate: _VariantName[0:7],\n	VariantRos:     _VariantName[7:10],','VariantAnimate: _VariantName[7:10],\n	VariantRos:     _VariantName[0:7],'),(V,'	_VariantName[0:7]:                   VariantAnimate,\n	strings.ToLower(_VariantName[0:7]):  VariantAnimate,\n	_VariantName[7:10]:                  VariantRos,\n	strings.ToLower(_VariantName[7:10]): VariantRos,','	_VariantName[0:7]:                   VariantRos,\n	strings.ToLower(_VariantName[0:7]):  VariantRos,\n	_VariantName[7:10]:                  VariantAnimate,\n	strings.ToLower(_VariantName[7:10]): VariantAnimate,')),
('C33','bug',(C,'	return &config, nil','	config.Cpps = config.Cpps[:len(config.Cpps):len(config.Cpps)]\n	if len(config.Cpps) > 2 {\n		config.Cpps = config.Cpps[:2]\n	}\n\n	return &config, nil')),
('C33','ok',(C,'`xml:"directory,omitempty"`','`xml:"directory"`')),
('C33','ok',(P,'`xml:"license"`','`xml:"license,omitempty"`')),
('C33','ok',(K,'`xml:"package,omitempty"`','`xml:"package"`')),
('C33','ok',(P,'	Version     string     `xml:"version"`     // Version is the version of the package.\n	Description string     `xml:"description"` // Description is the description of the package.','	Description string     `xml:"description"` // Description is the description of the package.\n	Version     string     `xml:"version"`     // Version is the version of the package.')),
('C33','ok',(C,'xml.NewDecoder(file).Decode(&config)','decode(file, &config)'),('internal/gen/config/config.go','','func decode(file *os.File, config any) error {\n	return xml.NewDecoder(file).Decode(config)\n}\n')),
]
