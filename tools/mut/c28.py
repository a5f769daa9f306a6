V='internal/testlang/value/value.go'; C='internal/testlang/channel/channel.go'; E='internal/testlang/event.go'; T='internal/trace/trace.go'
CASES=[
('C28','bug',(V,'return reflect.DeepEqual(v.content, other.content)','_ = reflect.DeepEqual\n\n\treturn v.content == other.content')),
('C28','bug',(V,'return reflect.DeepEqual(v.content, other.content)','_ = reflect.DeepEqual\n\n\treturn v.StringValue() == other.StringValue()')),
('C28','bug',(V,'	if other.IsEmpty() {\n\t\treturn false\n\t}\n\n\treturn reflect','	if other.IsEmpty() {\n\t\treturn true\n\t}\n\n\treturn reflect')),
('C28','bug',(C,'return c.Name == other.Name && c.Kind == other.Kind','return c.Name == other.Name && c.IsIn() == other.IsIn()')),
('C28','bug',(E,'return e.Channel.Equals(other.Channel) && e.Value.Equals(other.Value)','return e.Channel.Equals(other.Channel) && (e.Channel.IsCall() || e.Value.Equals(other.Value))')),
('C28','bug',(T,'return len(t) == len(other) && t.IsPrefixOf(other)','return t.IsPrefixOf(other)')),
('C28','bug',(T,'	for i, e := range t {\n\t\tif !e.Equals(other[i]) {','	for i, e := range t {\n\t\tif i > 0 && !e.Equals(other[i]) {')),
('C28','bug',(T,'	if len(other) < len(t) {\n\t\treturn false\n\t}\n\n\tfor i, e','	if len(other) <= len(t)-1 && len(t) > 1 {\n\t\treturn false\n\t}\n\n\tfor i, e')),
('C28','ok',(T,'	for i, e := range t {\n\t\tif !e.Equals(other[i]) {','	for i := len(t) - 1; i >= 0; i-- {\n\t\tif !t[i].Equals(other[i]) {')),
('C28','ok',(T,'	for i, e := range t {\n\t\tif !e.Equals(other[i]) {','	for i := 0; i < len(t); i++ {\n\t\te := other[i]\n\t\tif !e.Equals(t[i]) {')),
('C28','ok',(T,'return len(t) == len(other) && t.IsPrefixOf(other)','return t.IsPrefixOf(other) && other.IsPrefixOf(t)')),
('C28','ok',(T,'return len(t) == len(other) && t.IsPrefixOf(other)','if len(other) > len(t) {\n\t\treturn false\n\t}\n\n\treturn t.IsPrefixOf(other)')),
('C28','ok',(V,'''	if v.IsEmpty() {
		return other.IsEmpty()
	}

	if other.IsEmpty() {
		return false
	}
''','')),
('C28','ok',(V,'return reflect.DeepEqual(v.content, other.content)','''switch left := v.content.(type) {
	case *IntValue:
		right, ok := other.content.(*IntValue)

		return ok && *left == *right
	case *EnumValue:
		right, ok := other.content.(*EnumValue)

		return ok && *left == *right
	default:
		return reflect.DeepEqual(v.content, other.content)
	}''')),
('C28','ok',(C,'return c.Name == other.Name && c.Kind == other.Kind','return *c == other')),
('C28','ok',(T,'	for i, e := range t {\n\t\tif !e.Equals(other[i]) {\n\t\t\treturn false\n\t\t}\n\t}\n\n\treturn true','	same := true\n\tfor i, e := range t {\n\t\tif !e.Equals(other[i]) {\n\t\t\tsame = false\n\t\t}\n\t}\n\n\treturn same')),
('C28','ok',(T,'	for i, e := range t {\n\t\tif !e.Equals(other[i]) {\n\t\t\treturn false\n\t\t}\n\t}\n\n\treturn true','	n := 0\n\tfor n < len(t) && t[n].Equals(other[n]) {\n\t\tn++\n\t}\n\n\treturn n == len(t)')),
]
