package rules

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"text/template"

	"golang.org/x/tools/go/ssa"

	"verif/checker/absint"
	"verif/checker/core"
)

// embedded lists the files that //go:embed puts into a variable, by their path in the file system.
func embedded(p *core.Program, g *ssa.Global) (files map[string]string, dir string, err error) {
	q := p.ByID[g.Pkg.Pkg.Path()]
	if q == nil {
		return nil, "", fmt.Errorf("%s is not in the module", g)
	}
	var pats []string
	for _, f := range q.Syntax {
		name := p.Prog.Fset.Position(f.Pos()).Filename
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				doc := vs.Doc
				if doc == nil && len(gd.Specs) == 1 {
					doc = gd.Doc
				}
				for _, n := range vs.Names {
					if n.Name != g.Name() || doc == nil || q.TypesInfo.Defs[n] == nil {
						continue
					}
					dir = filepath.Dir(name)
					for _, c := range doc.List {
						if rest, ok := strings.CutPrefix(c.Text, "//go:embed "); ok {
							ps, err := embedArgs(rest)
							if err != nil {
								return nil, "", err
							}
							pats = append(pats, ps...)
						}
					}
				}
			}
		}
	}
	if len(pats) == 0 {
		return nil, "", fmt.Errorf("nothing is embedded in %s", g)
	}
	files = map[string]string{}
	add := func(full string) error {
		b, err := os.ReadFile(full)
		rel, _ := filepath.Rel(dir, full)
		files[filepath.ToSlash(rel)] = string(b)
		return err
	}
	for _, pat := range pats {
		pat, all := strings.CutPrefix(pat, "all:")
		ms, err := filepath.Glob(filepath.Join(dir, filepath.FromSlash(pat)))
		if err != nil {
			return nil, "", err
		}
		for _, m := range ms {
			err := filepath.WalkDir(m, func(f string, d os.DirEntry, err error) error {
				if err != nil {
					return err
				}
				if f != m && !all && (strings.HasPrefix(d.Name(), ".") || strings.HasPrefix(d.Name(), "_")) {
					if d.IsDir() {
						return filepath.SkipDir
					}
					return nil
				}
				if d.IsDir() {
					return nil
				}
				return add(f)
			})
			if err != nil {
				return nil, "", err
			}
		}
	}
	return files, p.Rel(dir), nil
}

func embedArgs(s string) (ps []string, err error) {
	for s = strings.TrimSpace(s); s != ""; s = strings.TrimSpace(s) {
		if s[0] == '"' || s[0] == '`' {
			q, err := strconv.QuotedPrefix(s)
			if err != nil {
				return nil, err
			}
			x, _ := strconv.Unquote(q)
			ps = append(ps, x)
			s = s[len(q):]
			continue
		}
		w, rest, _ := strings.Cut(s, " ")
		ps = append(ps, w)
		s = rest
	}
	return ps, nil
}

// globFS matches a pattern against embedded files the way fs.Glob does, files only.
func globFS(files map[string]string, pat string) (names []string, err error) {
	for f := range files {
		ok, err := path.Match(pat, f)
		if err != nil {
			return nil, err
		}
		if ok {
			names = append(names, f)
		}
	}
	sort.Strings(names)
	return names, nil
}

// fsOf finds the embedded files behind a file system value.
func (c *Ctx) fsOf(in *absint.Interp, t *T) (files map[string]string, dir string, err error) {
	if t.Op == absint.OIface {
		t = t.Args[0]
	}
	// file systems are read only: the value identifies the variable it was read from
	var g *ssa.Global
	for _, p := range c.P.Packages() {
		for _, m := range p.Members {
			if x, ok := m.(*ssa.Global); ok {
				if t.Op == absint.OGlobal && in.Global(x) == t || t.Op == absint.OInit && in.Global(x) == t.Args[0] {
					g = x
				}
			}
		}
	}
	if g == nil {
		return nil, "", fmt.Errorf("not a file system embedded in the program: %s", short(t))
	}
	return embedded(c.P, g)
}

// tmplSet is a set of associated templates, as loaded.
type tmplSet struct {
	tmpl  *template.Template
	funcs map[string]tmplFunc
	from  map[string]string   // template name -> file that defines it last
	src   map[string]string   // file base name -> path, for messages
	defs  map[string][]string // template name -> files that define it
	order []string
	name  string // of the template value
}

type tmplFunc struct {
	val *T // interface value holding the function
}

// tmplRoot finds the value that the set of a template value started as.
func tmplRoot(effs []*absint.Effect, t *T) (root *T, err error) {
	for {
		if t.Op != absint.ORes {
			return nil, fmt.Errorf("not a template that the program loads: %s", short(t))
		}
		e := callByResult(effs, t.Aux)
		if e == nil {
			return nil, fmt.Errorf("cannot tell where template %s comes from", short(t))
		}
		switch e.Name {
		case "text/template.New", "text/template.ParseFS":
			return t, nil
		case "(*text/template.Template).Funcs", "(*text/template.Template).ParseFS", "(*text/template.Template).Parse",
			"(*text/template.Template).Option", "(*text/template.Template).Lookup", "(*text/template.Template).New":
			t = e.Args[0]
		default:
			return nil, fmt.Errorf("template made by %s", e.Name)
		}
	}
}

// loadSet loads the templates of a set as of an effect.
func (c *Ctx) loadSet(in *absint.Interp, effs []*absint.Effect, until *absint.Effect, t *T) (*tmplSet, error) {
	root, err := tmplRoot(effs, t)
	if err != nil {
		return nil, err
	}
	s := &tmplSet{funcs: map[string]tmplFunc{}, from: map[string]string{}, src: map[string]string{}, defs: map[string][]string{}}
	byVal := map[*T]*template.Template{}
	parse := func(recv *template.Template, fsv, pats *T, e *absint.Effect) (first *template.Template, err error) {
		files, dir, err := c.fsOf(in, fsv)
		if err != nil {
			return nil, err
		}
		ps, ok := in.Elems(e.St, pats)
		if !ok {
			return nil, fmt.Errorf("patterns are not known")
		}
		r := &renderer{in}
		for _, pt := range ps {
			pat, err := r.text(pt)
			if err != nil {
				return nil, err
			}
			names, err := globFS(files, pat)
			if err != nil {
				return nil, fmt.Errorf("pattern %q: %v", pat, err)
			}
			if len(names) == 0 {
				return nil, fmt.Errorf("pattern %q matches no embedded file", pat)
			}
			for _, n := range names {
				base := path.Base(n)
				var x *template.Template
				if recv == nil {
					recv = template.New(base)
				}
				if s.tmpl == nil {
					s.tmpl = recv
				}
				if first == nil {
					first = recv
				}
				x = recv
				if base != recv.Name() {
					x = recv.New(base)
				}
				before := map[string]any{}
				for _, y := range s.tmpl.Templates() {
					before[y.Name()] = y.Tree
				}
				if _, err := x.Parse(files[n]); err != nil {
					return nil, fmt.Errorf("%s: %v", n, err)
				}
				stubs := template.FuncMap{}
				for f := range s.funcs {
					stubs[f] = func(...any) string { return "" }
				}
				if ds, err := definitions(base, files[n], stubs); err == nil {
					for _, d := range ds {
						s.defs[d] = append(s.defs[d], path.Join(dir, n))
					}
				}
				for _, y := range s.tmpl.Templates() {
					if before[y.Name()] != any(y.Tree) {
						s.from[y.Name()] = path.Join(dir, n)
					}
				}
				s.src[base] = path.Join(dir, n)
				s.order = append(s.order, n)
			}
		}
		if recv != nil && first == nil {
			first = recv
		}
		return first, nil
	}
	for _, e := range effs {
		if e == until {
			break
		}
		if len(e.Res) == 0 || e.Res[0] == nil {
			continue
		}
		if e.Res[0] == root {
			switch e.Name {
			case "text/template.New":
				n, err := (&renderer{in}).text(e.Args[0])
				if err != nil {
					return nil, err
				}
				s.tmpl = template.New(n)
				byVal[root] = s.tmpl
			case "text/template.ParseFS":
				x, err := parse(nil, e.Args[0], e.Args[1], e)
				if err != nil {
					return nil, err
				}
				byVal[root] = x
			}
			continue
		}
		if len(e.Args) == 0 || byVal[e.Args[0]] == nil {
			continue
		}
		recv := byVal[e.Args[0]]
		switch e.Name {
		case "(*text/template.Template).Funcs":
			ks, vs, ok := in.Entries(e.St, e.Args[1])
			if !ok {
				return nil, fmt.Errorf("the function map is not known (%s)", e.Pos)
			}
			stubs := template.FuncMap{}
			for i, k := range ks {
				n, ok := k.StrVal()
				if !ok {
					return nil, fmt.Errorf("the name of a function is not known (%s)", e.Pos)
				}
				if vs[i].Op != absint.OIface {
					return nil, fmt.Errorf("function %s is not known (%s)", n, e.Pos)
				}
				if _, ok := vs[i].Typ.Underlying().(*types.Signature); !ok {
					return nil, fmt.Errorf("%s is not a function (%s)", n, e.Pos)
				}
				s.funcs[n] = tmplFunc{vs[i]}
				stubs[n] = func(...any) string { return "" }
			}
			recv.Funcs(stubs)
			byVal[e.Res[0]] = recv
		case "(*text/template.Template).ParseFS":
			if _, err := parse(recv, e.Args[1], e.Args[2], e); err != nil {
				return nil, err
			}
			byVal[e.Res[0]] = recv
		case "(*text/template.Template).Lookup":
			n, err := (&renderer{in}).text(e.Args[1])
			if err != nil {
				return nil, err
			}
			if x := recv.Lookup(n); x != nil {
				byVal[e.Res[0]] = x
			}
		case "(*text/template.Template).Option", "(*text/template.Template).Clone", "(*text/template.Template).AddParseTree", "(*text/template.Template).Delims",
			"(*text/template.Template).New", "(*text/template.Template).Parse":
			return nil, fmt.Errorf("use of %s is not understood (%s)", e.Name, e.Pos)
		}
	}
	if byVal[t] == nil {
		return nil, fmt.Errorf("cannot tell what template %s is", short(t))
	}
	s.name = byVal[t].Name()
	return s, nil
}
