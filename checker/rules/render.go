package rules

import (
	"fmt"
	"go/constant"
	"go/types"
	"path"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"verif/checker/absint"
)

// renderer gives terms concrete values, with samples in the place of symbolic names.
type renderer struct {
	in *absint.Interp
}

// konst is the value of a term: string, int64, bool or nil.
func (r *renderer) konst(t *T) (v any, err error) {
	bad := func() (any, error) { return nil, fmt.Errorf("no sample value for %s", short(t)) }
	all := func() (vs []any, err error) {
		for _, a := range t.Args {
			x, err := r.konst(a)
			if err != nil {
				return nil, err
			}
			vs = append(vs, x)
		}
		return vs, nil
	}
	strs := func() (ss []string, err error) {
		vs, err := all()
		for _, v := range vs {
			s, ok := v.(string)
			if !ok {
				return nil, fmt.Errorf("not a text: %s", short(t))
			}
			ss = append(ss, s)
		}
		return ss, err
	}
	switch t.Op {
	case absint.OConst:
		if t.IsNil() {
			return nil, nil
		}
		switch t.Val.Kind() {
		case constant.String:
			return constant.StringVal(t.Val), nil
		case constant.Bool:
			return constant.BoolVal(t.Val), nil
		case constant.Int:
			if i, ok := constant.Int64Val(t.Val); ok {
				return i, nil
			}
		}
	case absint.OParam:
		if s, ok := sample[t.Aux]; ok {
			return s, nil
		}
		if i, ok := sampleInt[t.Aux]; ok {
			return i, nil
		}
	case absint.OConcat:
		ss, err := strs()
		return strings.Join(ss, ""), err
	case absint.OIface, absint.OUnwrap:
		return r.konst(t.Args[0])
	case absint.OLen:
		v, err := r.konst(t.Args[0])
		if s, ok := v.(string); ok {
			return int64(len(s)), err
		}
	case absint.OLin:
		n := t.C
		for i, a := range t.Args {
			v, err := r.konst(a)
			x, ok := v.(int64)
			if err != nil || !ok {
				return nil, fmt.Errorf("no sample value for %s: %v", short(t), err)
			}
			n += t.Coef[i] * x
		}
		return n, nil
	case absint.OLe:
		v, err := r.konst(t.Args[0])
		if x, ok := v.(int64); ok {
			return x <= 0, err
		}
	case absint.OEq:
		vs, err := all()
		if err != nil {
			return nil, err
		}
		return vs[0] == vs[1], nil
	case absint.OSub:
		vs, err := all()
		if err != nil {
			return nil, err
		}
		s, ok := vs[0].(string)
		lo, ok1 := vs[1].(int64)
		hi, ok2 := vs[2].(int64)
		if ok && ok1 && ok2 && 0 <= lo && lo <= hi && hi <= int64(len(s)) {
			return s[lo:hi], nil
		}
		return nil, fmt.Errorf("slice out of range: %s", short(t))
	case absint.OFmt:
		v, err := r.konst(t.Args[0])
		if err != nil {
			return nil, err
		}
		return fmt.Sprintf(t.Aux, v), nil
	case absint.ORes:
		if n, ok := t.Typ.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" {
			return timeText, nil
		}
	case absint.OApp:
		if strings.HasPrefix(t.Aux, "!") && len(t.Args) == 1 {
			v, err := r.konst(t.Args[0])
			if b, ok := v.(bool); ok {
				return !b, err
			}
		}
		vs, err := all()
		if err != nil {
			return nil, err
		}
		if t.Aux == "<" && len(vs) == 2 {
			a, ok := vs[0].(string)
			b, ok2 := vs[1].(string)
			if ok && ok2 {
				return a < b, nil
			}
		}
		if v, ok := applySample(t.Aux, vs); ok {
			return v, nil
		}
	}
	return bad()
}

// timeText stands for the time of generation.
const timeText = "2001-02-03 04:05:06 TIME"

// applySample computes functions that the interpreter treats as symbols.
func applySample(fn string, vs []any) (any, bool) {
	var ss []string
	var is []int64
	for _, v := range vs {
		switch x := v.(type) {
		case string:
			ss = append(ss, x)
		case int64:
			is = append(is, x)
		}
	}
	all := len(ss) == len(vs)
	one := all && len(ss) == 1
	two := all && len(ss) == 2
	switch fn = strings.TrimPrefix(fn, Mod+"/internal/"); fn {
	case "strings.ToUpper":
		if one {
			return strings.ToUpper(ss[0]), true
		}
	case "strings.ToLower":
		if one {
			return strings.ToLower(ss[0]), true
		}
	case "strings.TrimSpace":
		if one {
			return strings.TrimSpace(ss[0]), true
		}
	case "strings.Title", "strmanip.UpcaseFirst": // C29 decides what UpcaseFirst does
		if one {
			c, n := utf8.DecodeRuneInString(ss[0])
			return string(unicode.ToUpper(c)) + ss[0][n:], true
		}
	case "strmanip.ToLowerUnderscored":
		if one {
			return lowerUnderscored(ss[0]), true
		}
	case "strconv.Quote":
		if one {
			return strconv.Quote(ss[0]), true
		}
	case "strconv.FormatInt":
		if len(is) == 2 && is[1] >= 2 && is[1] <= 36 {
			return strconv.FormatInt(is[0], int(is[1])), true
		}
	case "strconv.Itoa":
		if len(is) == 1 {
			return strconv.FormatInt(is[0], 10), true
		}
	case "strings.Compare", "cmp.Compare":
		if two {
			return int64(strings.Compare(ss[0], ss[1])), true
		}
	case "fmt.Sprint":
		if len(vs) == 1 {
			return fmt.Sprint(vs[0]), true
		}
	case "strings.TrimPrefix":
		if two {
			return strings.TrimPrefix(ss[0], ss[1]), true
		}
	case "strings.TrimSuffix":
		if two {
			return strings.TrimSuffix(ss[0], ss[1]), true
		}
	case "strings.HasPrefix":
		if two {
			return strings.HasPrefix(ss[0], ss[1]), true
		}
	case "strings.HasSuffix":
		if two {
			return strings.HasSuffix(ss[0], ss[1]), true
		}
	case "strings.Contains":
		if two {
			return strings.Contains(ss[0], ss[1]), true
		}
	case "strings.ReplaceAll":
		if all && len(ss) == 3 {
			return strings.ReplaceAll(ss[0], ss[1], ss[2]), true
		}
	case "path/filepath.Join", "path.Join":
		if all {
			return path.Join(ss...), true
		}
	case "path/filepath.Dir", "path.Dir":
		if one {
			return path.Dir(ss[0]), true
		}
	case "path/filepath.Base", "path.Base":
		if one {
			return path.Base(ss[0]), true
		}
	case "path/filepath.Clean", "path.Clean":
		if one {
			return path.Clean(ss[0]), true
		}
	case "path/filepath.ToSlash", "path/filepath.FromSlash":
		if one {
			return ss[0], true
		}
	}
	return nil, false
}

// lowerUnderscored is what C29 decides strmanip.ToLowerUnderscored to do.
func lowerUnderscored(s string) string {
	var b strings.Builder
	lower := false
	for _, c := range s {
		switch {
		case unicode.IsUpper(c) && lower:
			b.WriteRune('_')
		case c == '_':
			lower = false
			b.WriteRune('_')
			continue
		}
		b.WriteRune(unicode.ToLower(c))
		lower = unicode.IsLower(c)
	}
	return b.String()
}

func (r *renderer) text(t *T) (string, error) {
	v, err := r.konst(t)
	if err != nil {
		return "", err
	}
	s, ok := v.(string)
	if !ok {
		return "", fmt.Errorf("not a text: %s", short(t))
	}
	return s, nil
}
