# Ways to write ToLowerUnderscored.
S='internal/strmanip/strmanip.go'
import os
if not os.path.exists('/repo/'+S):
    import glob
    S=[f for f in glob.glob('/repo/internal/strmanip/*.go') if '_test' not in f][0][len('/repo/'):]
src=open('/repo/'+S).read()
i=src.index('// ToLowerUnderscored')
old=src[i:]
H='// ToLowerUnderscored converts identifier ident to a lowercase_underscored string.\nfunc ToLowerUnderscored(ident string) string {\n'
def ok(b): return ('C29','ok',[(S,old,H+b)])
def bug(b): return ('C29','bug',[(S,old,H+b)])
CASES=[
ok('''	var (
		sb        strings.Builder
		lastLower bool
	)

	for _, char := range ident {
		if lastLower && unicode.IsUpper(char) {
			sb.WriteByte('_')
		}

		sb.WriteRune(unicode.ToLower(char))
		lastLower = unicode.IsLower(char)
	}

	return sb.String()
}
'''),
ok('''	var (
		sb   strings.Builder
		prev rune
	)

	for _, char := range ident {
		if unicode.IsUpper(char) && unicode.IsLower(prev) {
			sb.WriteRune('_')
		}

		sb.WriteRune(unicode.ToLower(char))
		prev = char
	}

	return sb.String()
}
'''),
ok('''	var sb strings.Builder

	runes := []rune(ident)
	for i, char := range runes {
		if i > 0 && unicode.IsUpper(char) && unicode.IsLower(runes[i-1]) {
			sb.WriteRune('_')
		}

		sb.WriteRune(unicode.ToLower(char))
	}

	return sb.String()
}
'''),
ok('''	out := make([]rune, 0, len(ident))
	lastLower := false

	for _, char := range ident {
		if lastLower && unicode.IsUpper(char) {
			out = append(out, '_')
		}

		out = append(out, unicode.ToLower(char))
		lastLower = unicode.IsLower(char)
	}

	return string(out)
}
'''),
ok('''	out := ""
	lastLower := false

	for _, char := range ident {
		if lastLower && unicode.IsUpper(char) {
			out += "_"
		}

		out += string(unicode.ToLower(char))
		lastLower = unicode.IsLower(char)
	}

	return out
}
'''),
ok('''	var sb strings.Builder

	lastLower := false

	for _, char := range ident {
		upper := unicode.IsUpper(char)
		if upper && lastLower {
			_, _ = sb.WriteString("_")
		}

		if char != '_' {
			char2 := unicode.ToLower(char)
			_, _ = sb.WriteRune(char2)
		} else {
			_, _ = sb.WriteRune(char)
		}

		lastLower = char != '_' && unicode.IsLower(char)
	}

	return sb.String()
}
'''),
ok('''	sp := formatter{}
	for _, char := range ident {
		sp.add(char)
	}

	return sp.sb.String()
}

type formatter struct {
	sb        strings.Builder
	lastLower bool
}

func (s *formatter) add(char rune) {
	if char == '_' {
		s.sb.WriteRune(char)
		s.lastLower = false

		return
	}

	if s.lastLower && unicode.IsUpper(char) {
		s.sb.WriteRune('_')
	}

	s.sb.WriteRune(unicode.ToLower(char))
	s.lastLower = unicode.IsLower(char)
}
'''),
ok('''	var sb strings.Builder

	lastLower := false

	for _, char := range ident {
		if unicode.IsUpper(char) && lastLower {
			sb.WriteRune('_')
		}

		sb.WriteRune(char)
		lastLower = unicode.IsLower(char)
	}

	return strings.ToLower(sb.String())
}
'''),
bug('''	var sb strings.Builder

	lastLower := false

	for _, char := range ident {
		if lastLower && unicode.IsUpper(char) {
			sb.WriteByte('_')
		}

		sb.WriteByte(byte(unicode.ToLower(char)))
		lastLower = unicode.IsLower(char)
	}

	return sb.String()
}
'''),
bug('''	var sb strings.Builder

	lastLower := false

	for i := 0; i < len(ident); i++ {
		char := rune(ident[i])
		if lastLower && unicode.IsUpper(char) {
			sb.WriteByte('_')
		}

		sb.WriteRune(unicode.ToLower(char))
		lastLower = unicode.IsLower(char)
	}

	return sb.String()
}
'''),
bug('''	var sb strings.Builder

	lastLower := false

	for _, char := range ident {
		if lastLower && unicode.IsUpper(char) {
			sb.WriteByte('_')
		}

		sb.WriteRune(unicode.ToLower(char))
		lastLower = !unicode.IsUpper(char) && char != '_'
	}

	return sb.String()
}
'''),
]
