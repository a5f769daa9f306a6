// Command refactor rewrites the Go sources of a copy of the repository without changing what they do,
// to try the checks for false alarms. Usage: refactor [-only SUBSTR] [-skip N,N] [-site N] DIR TRANSFORM
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

type edit struct {
	from, to int
	text     string
}

type site struct {
	pos   token.Pos
	edits []edit
}

type file struct {
	name string
	src  []byte
	ast  *ast.File
	pkg  *packages.Package
	fset *token.FileSet
	tmp  int
}

func (f *file) off(p token.Pos) int { return f.fset.Position(p).Offset }
func (f *file) text(n ast.Node) string {
	return string(f.src[f.off(n.Pos()):f.off(n.End())])
}
func (f *file) span(a, b token.Pos) string { return string(f.src[f.off(a):f.off(b)]) }
func (f *file) fresh(p string) string {
	f.tmp++
	return p + strconv.Itoa(f.tmp)
}
func (f *file) rep(n ast.Node, s string) edit { return edit{f.off(n.Pos()), f.off(n.End()), s} }
func (f *file) typ(e ast.Expr) types.Type     { return f.pkg.TypesInfo.TypeOf(e) }

var (
	only = flag.String("only", "", "only files whose name contains this")
	fun  = flag.String("func", "", "only functions of this name")
	one  = flag.Int("site", -1, "only the site of this number")
	list = flag.Bool("list", false, "list sites")
)

func main() {
	flag.Parse()
	dir, how := flag.Arg(0), flag.Arg(1)
	tr, ok := transforms[how]
	if !ok {
		var ns []string
		for n := range transforms {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		fmt.Println(strings.Join(ns, " "))
		os.Exit(2)
	}
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps, Dir: dir, Fset: token.NewFileSet()}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		panic(err)
	}
	count := 0
	for _, p := range pkgs {
		for i, a := range p.Syntax {
			name := p.CompiledGoFiles
			_ = name
			fn := cfg.Fset.Position(a.Pos()).Filename
			_ = i
			if *only != "" && !strings.Contains(fn, *only) {
				continue
			}
			src, err := os.ReadFile(fn)
			if err != nil {
				panic(err)
			}
			f := &file{name: fn, src: src, ast: a, pkg: p, fset: cfg.Fset}
			var sites []site
			for _, d := range a.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && (fd.Body == nil || *fun != "" && fd.Name.Name != *fun) {
					continue
				} else if !ok && *fun != "" {
					continue
				}
				sites = append(sites, tr(f, d)...)
			}
			// outermost sites first; inner ones that overlap are left alone
			sort.SliceStable(sites, func(i, j int) bool { return sites[i].pos < sites[j].pos })
			var es []edit
			for _, s := range sites {
				clash := false
				for _, e := range s.edits {
					for _, o := range es {
						if e.from < o.to && o.from < e.to {
							clash = true
						}
					}
				}
				if clash {
					continue
				}
				n := count
				count++
				if *list {
					fmt.Println(n, cfg.Fset.Position(s.pos))
				}
				if *one >= 0 && n != *one {
					continue
				}
				es = append(es, s.edits...)
			}
			if len(es) == 0 {
				continue
			}
			sort.SliceStable(es, func(i, j int) bool { return es[i].from < es[j].from })
			var sb strings.Builder
			at := 0
			for _, e := range es {
				sb.Write(src[at:e.from])
				sb.WriteString(e.text)
				at = e.to
			}
			sb.Write(src[at:])
			out, err := format.Source([]byte(sb.String()))
			if err != nil {
				fmt.Fprintln(os.Stderr, fn, err)
				out = []byte(sb.String())
			}
			if err := os.WriteFile(fn, out, 0o644); err != nil {
				panic(err)
			}
		}
	}
	fmt.Println(count, "sites")
}

var transforms = map[string]func(*file, ast.Decl) []site{
	"wrap":    wrap,
	"indexed": indexed,
	"invert":  invert,
	"nest":    nest,
	"results": results,
	"args":    hoistArgs,
	"ifs":     switches,
	"split":   splitAnd,
	"flip":    flip,
	"fields":  reverseFields,
	"assign":  litAssign,
	"noop":    noop,
	"while":   while,
	"keys":    mapKeys,
	"swap":    swapStmts,
	"body":    loopBody,
	"hoist":   hoistIf,
	"bools":   boolVar,
	"counted": counted,
	"block":   blockHelper,
	"named":   namedResults,
	"inits":   unInit,
	"alias":   alias,
	"down":    concat,
	"decls":   reverseDecls,
}

func funcOf(d ast.Decl) *ast.FuncDecl { fd, _ := d.(*ast.FuncDecl); return fd }

// wrap moves the body of each function to a helper.
func wrap(f *file, d ast.Decl) []site {
	fd := funcOf(d)
	if fd == nil || fd.Type.TypeParams != nil || fd.Name.Name == "init" {
		return nil
	}
	if fd.Recv != nil {
		if _, ok := fd.Recv.List[0].Type.(*ast.IndexExpr); ok {
			return nil
		}
		if s, ok := fd.Recv.List[0].Type.(*ast.StarExpr); ok {
			if _, ok := s.X.(*ast.IndexExpr); ok {
				return nil
			}
		}
		if len(fd.Recv.List[0].Names) == 0 {
			return nil
		}
	}
	var args []string
	for _, p := range fd.Type.Params.List {
		if len(p.Names) == 0 {
			return nil
		}
		for _, n := range p.Names {
			if n.Name == "_" {
				return nil
			}
			a := n.Name
			if _, ok := p.Type.(*ast.Ellipsis); ok {
				a += "..."
			}
			args = append(args, a)
		}
	}
	helper := strings.ToLower(fd.Name.Name[:1]) + fd.Name.Name[1:] + "Inner"
	call := helper + "(" + strings.Join(args, ", ") + ")"
	sig := f.span(fd.Type.Params.Pos(), fd.Body.Lbrace)
	recv := ""
	if fd.Recv != nil {
		recv = "(" + f.text(fd.Recv.List[0]) + ") "
		call = fd.Recv.List[0].Names[0].Name + "." + call
	}
	if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 {
		call = "return " + call
	}
	body := f.text(fd.Body)
	// named results of the outer function are not needed
	return []site{{fd.Pos(), []edit{f.rep(fd.Body, "{\n\t"+call+"\n}\n\nfunc "+recv+helper+sig+body)}}}
}

func (f *file) isSlice(e ast.Expr) bool {
	_, ok := f.typ(e).Underlying().(*types.Slice)
	return ok
}

func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			if id, y := x.Fun.(*ast.Ident); !y || id.Name != "len" && id.Name != "string" {
				ok = false
			}
		case *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// indexed turns ranges over slices into counting loops.
func indexed(f *file, d ast.Decl) []site {
	var out []site
	ast.Inspect(d, func(n ast.Node) bool {
		r, ok := n.(*ast.RangeStmt)
		if !ok || !f.isSlice(r.X) || r.Tok != token.DEFINE && r.Tok != token.ILLEGAL {
			return true
		}
		k, v := "", ""
		if r.Key != nil {
			k = f.text(r.Key)
		}
		if r.Value != nil {
			v = f.text(r.Value)
		}
		if k == "" || k == "_" {
			k = f.fresh("pos")
		}
		x := f.text(r.X)
		pre := ""
		if _, isID := r.X.(*ast.Ident); !isID {
			x = f.fresh("items")
			pre = x + " := " + f.text(r.X) + "\n"
		}
		head := pre + "for " + k + " := 0; " + k + " < len(" + x + "); " + k + "++ {\n"
		if v != "" && v != "_" {
			head += v + " := " + x + "[" + k + "]\n"
		}
		out = append(out, site{r.Pos(), []edit{{f.off(r.Pos()), f.off(r.Body.Lbrace) + 1, head}}})
		return true
	})
	return out
}

// counted turns counting loops over slices into ranges over numbers, and key ranges into counting loops.
func counted(f *file, d ast.Decl) []site {
	var out []site
	ast.Inspect(d, func(n ast.Node) bool {
		r, ok := n.(*ast.RangeStmt)
		if ok && f.isSlice(r.X) && r.Tok == token.DEFINE && pure(r.X) {
			// over the numbers of the places
			k, v := f.text(r.Key), ""
			if r.Value != nil {
				v = f.text(r.Value)
			}
			if k == "_" {
				k = f.fresh("pos")
			}
			head := "for " + k + " := range " + f.text(r.X) + " {\n"
			if v != "" && v != "_" {
				head += v + " := " + f.text(r.X) + "[" + k + "]\n"
			}
			out = append(out, site{r.Pos(), []edit{{f.off(r.Pos()), f.off(r.Body.Lbrace) + 1, head}}})
		}
		return true
	})
	return out
}

func terminates(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	switch x := b.List[len(b.List)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return x.Tok == token.CONTINUE || x.Tok == token.BREAK
	}
	return false
}

// invert swaps the branches of if statements with else.
func invert(f *file, d ast.Decl) []site {
	var out []site
	ast.Inspect(d, func(n ast.Node) bool {
		i, ok := n.(*ast.IfStmt)
		if !ok {
			return true
		}
		if e, ok := i.Else.(*ast.BlockStmt); ok {
			out = append(out, site{i.Pos(), []edit{f.rep(i.Cond, "!("+f.text(i.Cond)+")"), f.rep(i.Body, f.text(e)), f.rep(e, f.text(i.Body))}})
		} else if i.Else == nil {
			out = append(out, site{i.Pos(), []edit{f.rep(i.Cond, "!("+f.text(i.Cond)+")"), f.rep(i.Body, "{} else "+f.text(i.Body))}})
		}
		return true
	})
	return out
}

// nest turns early returns into else branches.
func nest(f *file, d ast.Decl) []site {
	fd := funcOf(d)
	if fd == nil {
		return nil
	}
	var out []site
	do := func(list []ast.Stmt, end token.Pos, fin bool) {
		for k, s := range list {
			i, ok := s.(*ast.IfStmt)
			if !ok || i.Else != nil || !terminates(i.Body) || k == len(list)-1 {
				continue
			}
			if _, ret := i.Body.List[len(i.Body.List)-1].(*ast.ReturnStmt); ret && !fin {
				// falls out of a loop body otherwise
				_ = ret
			}
			if _, ret := list[len(list)-1].(*ast.ReturnStmt); fin && !ret {
				continue
			}
			rest := f.span(list[k+1].Pos(), list[len(list)-1].End())
			out = append(out, site{i.Pos(), []edit{{f.off(i.Body.End()), f.off(list[len(list)-1].End()), " else {\n" + rest + "\n}"}}})
			return
		}
	}
	if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 {
		do(fd.Body.List, fd.Body.End(), true)
	}
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ForStmt:
			do(x.Body.List, x.Body.End(), false)
		case *ast.RangeStmt:
			do(x.Body.List, x.Body.End(), false)
		}
		return true
	})
	return out
}

// results names what is returned before returning it.
func results(f *file, d ast.Decl) []site {
	var out []site
	var sigs []*types.Signature
	var walk func(n ast.Node) bool
	walk = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			sigs = append(sigs, f.typ(x).(*types.Signature))
			ast.Inspect(x.Body, walk)
			sigs = sigs[:len(sigs)-1]
			return false
		case *ast.ReturnStmt:
			if len(x.Results) == 0 {
				return true
			}
			sig := sigs[len(sigs)-1]
			if len(x.Results) == 1 && sig.Results().Len() > 1 {
				var ns []string
				for i := 0; i < sig.Results().Len(); i++ {
					ns = append(ns, f.fresh("out"))
				}
				out = append(out, site{x.Pos(), []edit{f.rep(x, strings.Join(ns, ", ")+" := "+f.text(x.Results[0])+"\nreturn "+strings.Join(ns, ", "))}})
				return false
			}
			s := ""
			var ns []string
			did := false
			for _, r := range x.Results {
				tv := f.pkg.TypesInfo.Types[r]
				if tv.IsNil() || tv.Value != nil {
					ns = append(ns, f.text(r))
					continue
				}
				if _, ok := r.(*ast.Ident); ok {
					ns = append(ns, f.text(r))
					continue
				}
				v := f.fresh("out")
				s += v + " := " + f.text(r) + "\n"
				ns = append(ns, v)
				did = true
			}
			if did {
				out = append(out, site{x.Pos(), []edit{f.rep(x, s+"return "+strings.Join(ns, ", "))}})
			}
			return false
		}
		return true
	}
	fd := funcOf(d)
	if fd == nil {
		return nil
	}
	sigs = append(sigs, f.pkg.TypesInfo.Defs[fd.Name].Type().(*types.Signature))
	ast.Inspect(fd.Body, walk)
	return out
}

// hoistArgs names the calls among the arguments of a call that is a statement, an assignment or returned.
func hoistArgs(f *file, d ast.Decl) []site {
	var out []site
	one := func(s ast.Stmt, e ast.Expr) {
		c, ok := e.(*ast.CallExpr)
		if !ok || f.pkg.TypesInfo.Types[c.Fun].IsType() || f.pkg.TypesInfo.Types[c.Fun].IsBuiltin() {
			return
		}
		if len(c.Args) == 1 {
			if _, ok := f.typ(c.Args[0]).(*types.Tuple); ok {
				return
			}
		}
		pre := ""
		var es []edit
		for _, a := range c.Args {
			tv := f.pkg.TypesInfo.Types[a]
			if tv.IsNil() || tv.Value != nil {
				continue
			}
			switch y := a.(type) {
			case *ast.Ident, *ast.FuncLit:
				continue
			case *ast.SelectorExpr:
				if _, isPkg := f.pkg.TypesInfo.Selections[y]; !isPkg {
					continue
				}
			}
			v := f.fresh("arg")
			pre += v + " := " + f.text(a) + "\n"
			es = append(es, f.rep(a, v))
		}
		if len(es) > 0 {
			es = append([]edit{{f.off(s.Pos()), f.off(s.Pos()), pre}}, es...)
			out = append(out, site{s.Pos(), es})
		}
	}
	inList := func(l []ast.Stmt) {
		for _, s := range l {
			switch x := s.(type) {
			case *ast.ExprStmt:
				one(s, x.X)
			case *ast.AssignStmt:
				if len(x.Rhs) == 1 && pureAll(x.Lhs) {
					one(s, x.Rhs[0])
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 1 {
					one(s, x.Results[0])
				}
			}
		}
	}
	ast.Inspect(d, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			inList(x.List)
		case *ast.CaseClause:
			inList(x.Body)
		}
		return true
	})
	return out
}

func pureAll(es []ast.Expr) bool {
	for _, e := range es {
		if !pure(e) {
			return false
		}
	}
	return true
}

// switches turns switches into chains of if.
func switches(f *file, d ast.Decl) []site {
	var out []site
	ast.Inspect(d, func(n ast.Node) bool {
		s, ok := n.(*ast.SwitchStmt)
		if !ok || s.Init != nil {
			return true
		}
		tag, pre := "", ""
		if s.Tag != nil {
			tag = f.text(s.Tag)
			if !pure(s.Tag) {
				tag = f.fresh("tag")
				pre = tag + " := " + f.text(s.Tag) + "\n"
			}
		}
		text, def := "", ""
		for k, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			bad := false
			for _, b := range cc.Body {
				ast.Inspect(b, func(n ast.Node) bool {
					switch y := n.(type) {
					case *ast.ForStmt, *ast.RangeStmt:
						return false
					case *ast.BranchStmt:
						if y.Tok == token.BREAK || y.Tok == token.FALLTHROUGH {
							bad = true
						}
					}
					return true
				})
			}
			if bad {
				return true
			}
			body := ""
			for _, b := range cc.Body {
				body += f.text(b) + "\n"
			}
			if cc.List == nil {
				if k != len(s.Body.List)-1 {
					return true
				}
				def = body
				continue
			}
			var cs []string
			for _, e := range cc.List {
				if tag != "" {
					cs = append(cs, tag+" == "+f.text(e))
				} else {
					cs = append(cs, f.text(e))
				}
			}
			if text != "" {
				text += " else "
			}
			text += "if " + strings.Join(cs, " || ") + " {\n" + body + "}"
		}
		if text == "" {
			return true
		}
		if def != "" {
			text += " else {\n" + def + "}"
		}
		// a terminating statement may be needed: if-else chains are terminating like the switch was
		out = append(out, site{s.Pos(), []edit{f.rep(s, pre+text)}})
		return true
	})
	return out
}

// splitAnd turns conjunctions into nested ifs, and disjunctions with early exits into two ifs.
func splitAnd(f *file, d ast.Decl) []site {
	var out []site
	ast.Inspect(d, func(n ast.Node) bool {
		i, ok := n.(*ast.IfStmt)
		if !ok || i.Else != nil {
			return true
		}
		b, ok := i.Cond.(*ast.BinaryExpr)
		if !ok {
			return true
		}
		init := ""
		if i.Init != nil {
			init = f.text(i.Init) + "; "
		}
		switch b.Op {
		case token.LAND:
			out = append(out, site{i.Pos(), []edit{f.rep(i, "if "+init+f.text(b.X)+" {\nif "+f.text(b.Y)+" "+f.text(i.Body)+"\n}")}})
		case token.LOR:
			if init == "" && terminates(i.Body) {
				out = append(out, site{i.Pos(), []edit{f.rep(i, "if "+f.text(b.X)+" "+f.text(i.Body)+"\nif "+f.text(b.Y)+" "+f.text(i.Body))}})
			}
		}
		return true
	})
	return out
}

// flip turns comparisons round.
func flip(f *file, d ast.Decl) []site {
	var out []site
	ast.Inspect(d, func(n ast.Node) bool {
		b, ok := n.(*ast.BinaryExpr)
		if !ok || f.pkg.TypesInfo.Types[b].Value != nil {
			return true
		}
		x, y := f.text(b.X), f.text(b.Y)
		if !pure(b.X) && !pure(b.Y) {
			return true
		}
		s := ""
		num := false
		if t, ok := f.typ(b.X).Underlying().(*types.Basic); ok && t.Info()&types.IsInteger != 0 {
			num = true
		}
		switch b.Op {
		case token.EQL:
			s = y + " == " + x
		case token.NEQ:
			s = "!(" + y + " == " + x + ")"
		case token.LSS:
			s = y + " > " + x
			if num {
				s = "!(" + x + " >= " + y + ")"
			}
		case token.LEQ:
			s = y + " >= " + x
		case token.GTR:
			s = y + " < " + x
		case token.GEQ:
			s = "!(" + x + " < " + y + ")"
			if !num {
				s = y + " <= " + x
			}
		default:
			return true
		}
		out = append(out, site{b.Pos(), []edit{f.rep(b, s)}})
		return true
	})
	return out
}

// reverseFields writes keyed literals in the other order.
func reverseFields(f *file, d ast.Decl) []site {
	var out []site
	ast.Inspect(d, func(n ast.Node) bool {
		c, ok := n.(*ast.CompositeLit)
		if !ok || len(c.Elts) < 2 {
			return true
		}
		if _, ok := f.typ(c).Underlying().(*types.Struct); !ok {
			return true
		}
		impure := 0
		for _, e := range c.Elts {
			kv, ok := e.(*ast.KeyValueExpr)
			if !ok {
				return true
			}
			if !pure(kv.Value) {
				impure++
			}
		}
		if impure > 1 {
			return true
		}
		var es []edit
		for i, e := range c.Elts {
			es = append(es, f.rep(e, f.text(c.Elts[len(c.Elts)-1-i])))
		}
		out = append(out, site{c.Pos(), es})
		return true
	})
	return out
}

// litAssign builds returned struct literals field by field.
func litAssign(f *file, d ast.Decl) []site {
	var out []site
	ast.Inspect(d, func(n ast.Node) bool {
		var e ast.Expr
		var st ast.Stmt
		switch x := n.(type) {
		case *ast.ReturnStmt:
			if len(x.Results) == 0 {
				return true
			}
			for _, o := range x.Results[1:] {
				if !pure(o) {
					return true
				}
			}
			e, st = x.Results[0], x
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE || len(x.Rhs) != 1 || len(x.Lhs) != 1 {
				return true
			}
			e, st = x.Rhs[0], x
		default:
			return true
		}
		lit := e
		if u, ok := lit.(*ast.UnaryExpr); ok && u.Op == token.AND {
			lit = u.X
		}
		c, ok := lit.(*ast.CompositeLit)
		if !ok || len(c.Elts) == 0 || c.Type == nil {
			return true
		}
		if _, ok := f.typ(c).Underlying().(*types.Struct); !ok {
			return true
		}
		v := ""
		if a, ok := st.(*ast.AssignStmt); ok {
			v = f.text(a.Lhs[0])
		} else {
			v = f.fresh("made")
		}
		s := v + " := "
		if lit != e {
			s += "&"
		}
		s += f.text(c.Type) + "{}\n"
		for _, el := range c.Elts {
			kv, ok := el.(*ast.KeyValueExpr)
			if !ok {
				return true
			}
			s += v + "." + f.text(kv.Key) + " = " + f.text(kv.Value) + "\n"
		}
		if r, ok := st.(*ast.ReturnStmt); ok {
			s += "return " + v
			for _, o := range r.Results[1:] {
				s += ", " + f.text(o)
			}
		}
		// inside an if or for header?
		out = append(out, site{st.Pos(), []edit{f.rep(st, s)}})
		return true
	})
	return out
}

// noop puts a statement that does nothing at the start of functions and loops.
func noop(f *file, d ast.Decl) []site {
	var out []site
	ast.Inspect(d, func(n ast.Node) bool {
		var b *ast.BlockStmt
		switch x := n.(type) {
		case *ast.FuncDecl:
			b = x.Body
		case *ast.ForStmt:
			b = x.Body
		case *ast.RangeStmt:
			b = x.Body
		case *ast.IfStmt:
			b = x.Body
		}
		if b != nil {
			v := f.fresh("unused")
			out = append(out, site{b.Pos(), []edit{{f.off(b.Lbrace) + 1, f.off(b.Lbrace) + 1, "\n" + v + " := 0\n_ = " + v + "\n"}}})
		}
		return true
	})
	return out
}

// while moves the condition of counting loops into the body.
func while(f *file, d ast.Decl) []site {
	var out []site
	ast.Inspect(d, func(n ast.Node) bool {
		x, ok := n.(*ast.ForStmt)
		if !ok || x.Cond == nil {
			return true
		}
		init, post := "", ""
		if x.Init != nil {
			init = f.text(x.Init)
		}
		if x.Post != nil {
			post = f.text(x.Post)
		}
		out = append(out, site{x.Pos(), []edit{{f.off(x.Pos()), f.off(x.Body.Lbrace) + 1, "for " + init + "; ; " + post + " {\nif !(" + f.text(x.Cond) + ") {\nbreak\n}\n"}}})
		return true
	})
	return out
}

// mapKeys looks the values of maps up instead of ranging over them.
func mapKeys(f *file, d ast.Decl) []site {
	var out []site
	ast.Inspect(d, func(n ast.Node) bool {
		r, ok := n.(*ast.RangeStmt)
		if !ok || r.Tok != token.DEFINE || r.Value == nil || !pure(r.X) {
			return true
		}
		if _, ok := f.typ(r.X).Underlying().(*types.Map); !ok {
			return true
		}
		k := f.text(r.Key)
		if k == "_" {
			k = f.fresh("key")
		}
		v := f.text(r.Value)
		if v == "_" {
			return true
		}
		m := f.text(r.X)
		if strings.HasPrefix(m, "*") {
			m = "(" + m + ")"
		}
		out = append(out, site{r.Pos(), []edit{{f.off(r.Pos()), f.off(r.Body.Lbrace) + 1, "for " + k + " := range " + f.text(r.X) + " {\n" + v + " := " + m + "[" + k + "]\n"}}})
		return true
	})
	return out
}

// swapStmts swaps neighbouring statements that do not depend on each other.
func swapStmts(f *file, d ast.Decl) []site {
	var out []site
	used := func(n ast.Node) map[types.Object]bool {
		m := map[types.Object]bool{}
		ast.Inspect(n, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if o := f.pkg.TypesInfo.ObjectOf(id); o != nil {
					m[o] = true
				}
			}
			return true
		})
		return m
	}
	simple := func(s ast.Stmt) (defs []types.Object, pur, ok bool) {
		switch x := s.(type) {
		case *ast.AssignStmt:
			pur = pureAll(x.Rhs)
			for _, l := range x.Lhs {
				e := l
				for {
					if sel, y := e.(*ast.SelectorExpr); y {
						e = sel.X
						continue
					}
					break
				}
				id, y := e.(*ast.Ident)
				if !y {
					return nil, false, false
				}
				if sel, y := l.(*ast.SelectorExpr); y {
					defs = append(defs, f.pkg.TypesInfo.ObjectOf(sel.Sel))
					continue
				}
				if id.Name == "_" {
					continue
				}
				defs = append(defs, f.pkg.TypesInfo.ObjectOf(id))
			}
			return defs, pur, true
		case *ast.DeclStmt:
			g, y := x.Decl.(*ast.GenDecl)
			if !y || g.Tok != token.VAR {
				return nil, false, false
			}
			pur = true
			for _, sp := range g.Specs {
				vs := sp.(*ast.ValueSpec)
				for _, n := range vs.Names {
					defs = append(defs, f.pkg.TypesInfo.ObjectOf(n))
				}
				pur = pur && pureAll(vs.Values)
			}
			return defs, pur, true
		}
		return nil, false, false
	}
	inList := func(l []ast.Stmt) {
		for k := 0; k+1 < len(l); k++ {
			a, b := l[k], l[k+1]
			da, pa, oka := simple(a)
			db, pb, okb := simple(b)
			if !oka || !okb || !pa && !pb {
				continue
			}
			ub, ua := used(b), used(a)
			bad := false
			for _, o := range da {
				bad = bad || ub[o]
			}
			for _, o := range db {
				bad = bad || ua[o]
			}
			if bad {
				continue
			}
			out = append(out, site{a.Pos(), []edit{f.rep(a, f.text(b)), f.rep(b, f.text(a))}})
			k++
		}
	}
	ast.Inspect(d, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			inList(x.List)
		case *ast.CaseClause:
			inList(x.Body)
		}
		return true
	})
	return out
}

// free lists the local variables that a node uses from outside, and whether it assigns or takes the address of any.
func (f *file) free(n ast.Node) (vs []*types.Var, changed map[*types.Var]bool) {
	changed = map[*types.Var]bool{}
	seen := map[*types.Var]bool{}
	local := func(o types.Object) *types.Var {
		v, ok := o.(*types.Var)
		if !ok || v.IsField() || v.Parent() == nil || v.Parent() == f.pkg.Types.Scope() || v.Pkg() != f.pkg.Types {
			return nil
		}
		if n.Pos() <= v.Pos() && v.Pos() < n.End() {
			return nil
		}
		return v
	}
	root := func(e ast.Expr) *types.Var {
		id, ok := ast.Unparen(e).(*ast.Ident)
		if !ok {
			// writing to a field or element of a value changes it
			for {
				switch x := ast.Unparen(e).(type) {
				case *ast.SelectorExpr:
					if _, isPtr := f.typ(x.X).Underlying().(*types.Pointer); isPtr {
						return nil
					}
					e = x.X
					continue
				case *ast.Ident:
					id = x
				}
				break
			}
			if id == nil {
				return nil
			}
		}
		return local(f.pkg.TypesInfo.ObjectOf(id))
	}
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.Ident:
			if v := local(f.pkg.TypesInfo.ObjectOf(x)); v != nil && !seen[v] {
				seen[v] = true
				vs = append(vs, v)
			}
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				if v := root(l); v != nil {
					changed[v] = true
				}
			}
		case *ast.IncDecStmt:
			if v := root(x.X); v != nil {
				changed[v] = true
			}
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				if v := root(x.X); v != nil {
					changed[v] = true
				}
			}
		case *ast.CallExpr:
			// a method with a pointer receiver called on a value
			if s, ok := x.Fun.(*ast.SelectorExpr); ok {
				if sel := f.pkg.TypesInfo.Selections[s]; sel != nil {
					if fn, ok := sel.Obj().(*types.Func); ok {
						if r := fn.Type().(*types.Signature).Recv(); r != nil {
							if _, ptr := r.Type().(*types.Pointer); ptr {
								if v := root(s.X); v != nil {
									if _, isPtr := v.Type().Underlying().(*types.Pointer); !isPtr {
										changed[v] = true
									}
								}
							}
						}
					}
				}
			}
		case *ast.RangeStmt:
			if x.Tok == token.ASSIGN {
				for _, l := range []ast.Expr{x.Key, x.Value} {
					if l != nil {
						if v := root(l); v != nil {
							changed[v] = true
						}
					}
				}
			}
		}
		return true
	})
	return vs, changed
}

func (f *file) typeText(t types.Type) (string, bool) {
	ok := true
	s := types.TypeString(t, func(p *types.Package) string {
		if p == f.pkg.Types {
			return ""
		}
		for _, im := range f.ast.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			if path == p.Path() {
				if im.Name != nil {
					return im.Name.Name
				}
				return p.Name()
			}
		}
		ok = false
		return p.Name()
	})
	if strings.Contains(s, "invalid") {
		ok = false
	}
	return s, ok
}

// jumps reports returns and branches that leave the node.
func jumps(n ast.Node) (ret, branch bool) {
	var in func(n ast.Node, loop int)
	in = func(n ast.Node, loop int) {
		ast.Inspect(n, func(m ast.Node) bool {
			if m == n {
				return true
			}
			switch x := m.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt:
				in(m, loop+1)
				return false
			case *ast.ReturnStmt:
				ret = true
			case *ast.BranchStmt:
				if loop == 0 || x.Label != nil || x.Tok == token.CONTINUE {
					branch = true
				}
			}
			return true
		})
	}
	in(n, 0)
	return
}

func (f *file) helper(d ast.Decl, name string, n []ast.Stmt, outer ast.Node, results string) (call, decl string, ok bool) {
	from, to := n[0].Pos(), n[len(n)-1].End()
	blk := &ast.BlockStmt{Lbrace: from, List: n, Rbrace: to - 1}
	vs, changed := f.free(blk)
	var ps, as []string
	fd := funcOf(d)
	if fd.Type.TypeParams != nil {
		return "", "", false
	}
	if fd.Recv != nil && strings.Contains(f.text(fd.Recv), "[") {
		return "", "", false
	}
	text := f.span(from, to)
	for _, v := range vs {
		t, y := f.typeText(v.Type())
		if !y {
			return "", "", false
		}
		if v.Name() == "_" {
			return "", "", false
		}
		if changed[v] {
			return "", "", false
		}
		ps = append(ps, v.Name()+" "+t)
		as = append(as, v.Name())
	}
	return name + "(" + strings.Join(as, ", ") + ")", "\n\nfunc " + name + "(" + strings.Join(ps, ", ") + ") " + results + " {\n" + text + "\n", true
}

// loopBody moves the bodies of loops that only go round to helpers.
func loopBody(f *file, d ast.Decl) []site {
	fd := funcOf(d)
	if fd == nil {
		return nil
	}
	var out []site
	k := 0
	base := strings.ToLower(f.pkg.Types.Name()[:1]) + "h" + strings.Title(strings.ToLower(fd.Name.Name)) + strconv.Itoa(f.off(fd.Pos()))
	ast.Inspect(fd, func(n ast.Node) bool {
		var b *ast.BlockStmt
		switch x := n.(type) {
		case *ast.ForStmt:
			b = x.Body
		case *ast.RangeStmt:
			b = x.Body
		case *ast.FuncLit:
			return false
		}
		if b == nil || len(b.List) == 0 {
			return true
		}
		ret, br := jumps(b)
		if ret || br {
			return true
		}
		k++
		call, decl, ok := f.helper(d, base+strconv.Itoa(k), b.List, n, "")
		if !ok {
			return true
		}
		out = append(out, site{n.Pos(), []edit{{f.off(b.List[0].Pos()), f.off(b.List[len(b.List)-1].End()), call}, {f.off(fd.End()), f.off(fd.End()), decl + "}\n"}}})
		return true
	})
	// several helpers of one function are inserted at one place
	return out
}

// blockHelper moves the tail of function bodies to helpers.
func blockHelper(f *file, d ast.Decl) []site {
	fd := funcOf(d)
	if fd == nil || len(fd.Body.List) < 3 || fd.Type.TypeParams != nil {
		return nil
	}
	res := ""
	if fd.Type.Results != nil {
		res = f.span(fd.Type.Results.Pos(), fd.Type.Results.End())
		if fd.Type.Results.List[0].Names != nil {
			return nil
		}
	}
	k := len(fd.Body.List) / 2
	base := "tail" + strings.Title(strings.ToLower(fd.Name.Name)) + strconv.Itoa(f.off(fd.Pos()))
	list := fd.Body.List[k:]
	blk := &ast.BlockStmt{Lbrace: list[0].Pos(), List: list, Rbrace: list[len(list)-1].End() - 1}
	vs, _ := f.free(blk)
	if fd.Recv != nil && strings.Contains(f.text(fd.Recv), "[") {
		return nil
	}
	// what is deferred before refers to variables: leave those functions alone
	bad := false
	for _, s := range fd.Body.List[:k] {
		ast.Inspect(s, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.DeferStmt, *ast.FuncLit, *ast.LabeledStmt:
				bad = true
			}
			return !bad
		})
	}
	if bad {
		return nil
	}
	var ps, as []string
	for _, v := range vs {
		t, ok := f.typeText(v.Type())
		if !ok {
			return nil
		}
		// the address of a variable is taken before: it has to stay the same variable
		ps = append(ps, v.Name()+" "+t)
		as = append(as, v.Name())
	}
	addr := false
	for _, s := range fd.Body.List[:k] {
		ast.Inspect(s, func(n ast.Node) bool {
			if u, ok := n.(*ast.UnaryExpr); ok && u.Op == token.AND {
				if _, lit := u.X.(*ast.CompositeLit); !lit {
					addr = true
				}
			}
			return true
		})
	}
	if addr {
		return nil
	}
	call := base + "(" + strings.Join(as, ", ") + ")"
	if res != "" {
		call = "return " + call
	}
	return []site{{fd.Pos(), []edit{{f.off(list[0].Pos()), f.off(fd.Body.Rbrace), call + "\n"}, {f.off(fd.End()), f.off(fd.End()), "\n\nfunc " + base + "(" + strings.Join(ps, ", ") + ") " + res + " {\n" + f.span(list[0].Pos(), list[len(list)-1].End()) + "\n}\n"}}}}
}

// hoistIf turns if statements with initialisers into two statements in a block.
func hoistIf(f *file, d ast.Decl) []site {
	var out []site
	ast.Inspect(d, func(n ast.Node) bool {
		b, ok := n.(*ast.BlockStmt)
		if !ok {
			return true
		}
		for k, s := range b.List {
			i, ok := s.(*ast.IfStmt)
			if !ok || i.Init == nil || k == len(b.List)-1 && i.Else != nil && terminates(i.Body) {
				continue
			}
			out = append(out, site{i.Pos(), []edit{f.rep(i, "{\n"+f.text(i.Init)+"\nif "+f.span(i.Cond.Pos(), i.End())+"\n}")}})
		}
		return true
	})
	return out
}

// unInit turns an assignment followed by a test of it into an if with initialiser, when it is not used later.
func unInit(f *file, d ast.Decl) []site {
	var out []site
	ast.Inspect(d, func(n ast.Node) bool {
		b, ok := n.(*ast.BlockStmt)
		if !ok {
			return true
		}
		for k := 0; k+1 < len(b.List); k++ {
			a, ok := b.List[k].(*ast.AssignStmt)
			i, ok2 := b.List[k+1].(*ast.IfStmt)
			if !ok || !ok2 || i.Init != nil || a.Tok != token.DEFINE {
				continue
			}
			later := false
			for _, l := range a.Lhs {
				id := l.(*ast.Ident)
				o := f.pkg.TypesInfo.Defs[id]
				if o == nil && id.Name != "_" {
					later = true
				}
				ast.Inspect(b, func(m ast.Node) bool {
					if x, ok := m.(*ast.Ident); ok && o != nil && x.Pos() >= i.End() && f.pkg.TypesInfo.Uses[x] == o {
						later = true
					}
					return true
				})
			}
			if later {
				continue
			}
			out = append(out, site{a.Pos(), []edit{{f.off(a.Pos()), f.off(i.Cond.Pos()), "if " + f.text(a) + "; "}}})
		}
		return true
	})
	return out
}

// boolVar names the conditions of ifs.
func boolVar(f *file, d ast.Decl) []site {
	var out []site
	inList := func(l []ast.Stmt) {
		for _, s := range l {
			i, ok := s.(*ast.IfStmt)
			if !ok || i.Init != nil {
				continue
			}
			if _, id := i.Cond.(*ast.Ident); id {
				continue
			}
			v := f.fresh("cond")
			out = append(out, site{i.Pos(), []edit{{f.off(i.Pos()), f.off(i.Cond.End()), v + " := " + f.text(i.Cond) + "\nif " + v}}})
		}
	}
	ast.Inspect(d, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			inList(x.List)
		case *ast.CaseClause:
			inList(x.Body)
		}
		return true
	})
	return out
}

// namedResults gives names to results and assigns before returning.
func namedResults(f *file, d ast.Decl) []site {
	fd := funcOf(d)
	if fd == nil || fd.Type.Results == nil || len(fd.Type.Results.List) == 0 || fd.Type.Results.List[0].Names != nil {
		return nil
	}
	var ns, ps []string
	for k, r := range fd.Type.Results.List {
		n := "res" + strconv.Itoa(k)
		ns = append(ns, n)
		ps = append(ps, n+" "+f.text(r.Type))
	}
	es := []edit{{f.off(fd.Type.Results.Pos()), f.off(fd.Type.Results.End()), "(" + strings.Join(ps, ", ") + ")"}}
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt:
			es = append(es, f.rep(x, strings.Join(ns, ", ")+" = "+f.span(x.Results[0].Pos(), x.End())+"\nreturn "+strings.Join(ns, ", ")))
			return false
		}
		return true
	})
	return []site{{fd.Pos(), es}}
}

// alias copies parameters into local variables.
func alias(f *file, d ast.Decl) []site {
	fd := funcOf(d)
	if fd == nil {
		return nil
	}
	s := ""
	var es []edit
	for _, p := range fd.Type.Params.List {
		for _, n := range p.Names {
			if n.Name == "_" {
				continue
			}
			o := f.pkg.TypesInfo.Defs[n]
			v := n.Name + "Arg"
			s += n.Name + " := " + v + "\n"
			used := false
			ast.Inspect(fd.Body, func(m ast.Node) bool {
				if id, ok := m.(*ast.Ident); ok && f.pkg.TypesInfo.Uses[id] == o {
					used = true
				}
				return true
			})
			if !used {
				s += "_ = " + n.Name + "\n"
			}
			es = append(es, f.rep(n, v))
		}
	}
	if s == "" {
		return nil
	}
	es = append(es, edit{f.off(fd.Body.Lbrace) + 1, f.off(fd.Body.Lbrace) + 1, "\n" + s})
	// a variable of the same name in the scope of the body is not possible
	return []site{{fd.Pos(), []edit(es)}}
}

// concat turns formatting of strings with %s only into joining.
func concat(f *file, d ast.Decl) []site {
	var out []site
	ast.Inspect(d, func(n ast.Node) bool {
		c, ok := n.(*ast.CallExpr)
		if !ok || f.text(c.Fun) != "fmt.Sprintf" {
			return true
		}
		tv := f.pkg.TypesInfo.Types[c.Args[0]]
		if tv.Value == nil {
			return true
		}
		form, err := strconv.Unquote(tv.Value.ExactString())
		if err != nil || strings.Count(form, "%s") != len(c.Args)-1 || strings.Count(form, "%") != len(c.Args)-1 {
			return true
		}
		var parts []string
		for i, p := range strings.Split(form, "%s") {
			if i > 0 {
				a := c.Args[i]
				b, ok := f.typ(a).(*types.Basic)
				if !ok || b.Kind() != types.String {
					return true
				}
				parts = append(parts, f.text(a))
			}
			if p != "" {
				parts = append(parts, strconv.Quote(p))
			}
		}
		out = append(out, site{c.Pos(), []edit{f.rep(c, strings.Join(parts, " + "))}})
		return true
	})
	return out
}

// reverseDecls does not move anything but functions: the second of two neighbouring functions first.
func reverseDecls(f *file, d ast.Decl) []site {
	ds := f.ast.Decls
	for k := 0; k+1 < len(ds); k += 1 {
		a, ok := ds[k].(*ast.FuncDecl)
		b, ok2 := ds[k+1].(*ast.FuncDecl)
		if ok && ok2 && a == d && k%2 == 0 {
			return []site{{a.Pos(), []edit{f.rep(a, f.text(b)), f.rep(b, f.text(a))}}}
		}
	}
	return nil
}
