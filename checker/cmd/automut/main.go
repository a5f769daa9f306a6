// Program automut lists small changes of the Go files of a module, as JSON lines: file, start, end, text, what.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"golang.org/x/tools/go/packages"
)

type mutant struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	Text  string `json:"text"`
	What  string `json:"what"`
}

var (
	fset *token.FileSet
	out  = json.NewEncoder(os.Stdout)
	dir  string
	src  []byte
	info *types.Info
	pkg  *types.Package
)

func emit(a, b token.Pos, text, what string) {
	p := fset.Position(a)
	f, _ := filepath.Rel(dir, p.Filename)
	old := string(src[p.Offset:fset.Position(b).Offset])
	if old == text {
		return
	}
	_ = out.Encode(mutant{f, p.Line, p.Offset, fset.Position(b).Offset, text, what + ": " + cut(old) + " => " + cut(text)})
}

func cut(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 70 {
		s = s[:70] + "..."
	}
	return s
}

func text(n ast.Node) string {
	return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
}

var swaps = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
	token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"},
}

func isErr(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

func zero(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return `""`
		case u.Info()&types.IsBoolean != 0:
			return "false"
		case u.Info()&types.IsNumeric != 0:
			return "0"
		}
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return "nil"
	}
	return ""
}

func fileOf(f *ast.File) {
	var fn *ast.FuncDecl
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			fn = x
		case *ast.BinaryExpr:
			for _, o := range swaps[x.Op] {
				if x.Op == token.ADD {
					if b, ok := info.TypeOf(x).Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
						emit(x.Pos(), x.End(), text(x.X), "left of +")
						emit(x.Pos(), x.End(), text(x.Y), "right of +")
						break
					}
				}
				emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, "operator")
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				emit(x.Pos(), x.End(), text(x.X), "left of &&")
				emit(x.Pos(), x.End(), text(x.Y), "right of &&")
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				emit(x.Pos(), x.End(), text(x.X), "drop !")
			}
		case *ast.IfStmt:
			emit(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate")
			emit(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "never")
			emit(x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")", "always")
			if x.Else != nil {
				emit(x.Body.End(), x.Else.End(), "", "drop else")
			}
		case *ast.ForStmt:
			if x.Cond != nil {
				emit(x.Body.Rbrace, x.Body.Rbrace, "\nbreak\n", "loop once")
			}
		case *ast.RangeStmt:
			emit(x.Body.Rbrace, x.Body.Rbrace, "\nbreak\n", "loop once")
			if _, ok := info.TypeOf(x.X).Underlying().(*types.Slice); ok {
				emit(x.X.End(), x.X.End(), "[1:]", "loop from second")
				emit(x.X.Pos(), x.X.End(), text(x.X)+"[:len("+text(x.X)+")-1]", "loop to last but one")
			}
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
			if len(x.Body) > 0 {
				emit(x.Colon+1, x.End(), "", "empty case")
			}
			for i, e := range x.List {
				if len(x.List) > 1 {
					if i > 0 {
						emit(x.List[i-1].End(), e.End(), "", "drop case value")
					} else {
						emit(e.Pos(), x.List[1].Pos(), "", "drop case value")
					}
				}
			}
		case *ast.BasicLit:
			switch x.Kind {
			case token.INT:
				emit(x.Pos(), x.End(), x.Value+"+1", "literal")
				if x.Value != "0" {
					emit(x.Pos(), x.End(), x.Value+"-1", "literal")
				}
			case token.STRING:
				if x.Value == `""` {
					emit(x.Pos(), x.End(), `"zz"`, "literal")
				} else {
					emit(x.Pos(), x.End(), x.Value[:len(x.Value)-1]+"z"+x.Value[len(x.Value)-1:], "literal")
					emit(x.Pos(), x.End(), `""`, "literal")
				}
			case token.CHAR:
				emit(x.Pos(), x.End(), "'~'", "literal")
			}
		case *ast.Field:
			if x.Tag != nil {
				t := x.Tag.Value
				emit(x.Tag.Pos(), x.Tag.End(), strings.Replace(t, `:"`, `:"zz`, 1), "tag")
				emit(x.Tag.Pos(), x.Tag.End(), regexp.MustCompile(`:"[^"]*"`).ReplaceAllString(t, `:"-"`), "tag")
				if strings.Contains(t, ",attr") {
					emit(x.Tag.Pos(), x.Tag.End(), strings.Replace(t, ",attr", "", 1), "tag")
				}
				return false
			}
		case *ast.Ident:
			if x.Name == "true" {
				emit(x.Pos(), x.End(), "false", "literal")
			}
			if x.Name == "false" {
				emit(x.Pos(), x.End(), "true", "literal")
			}
			ident(x, fn)
		case *ast.SelectorExpr:
			selector(x)
			ast.Inspect(x.X, func(ast.Node) bool { return true })
		case *ast.CallExpr:
			call(x)
		case *ast.ReturnStmt:
			for _, e := range x.Results {
				t := info.TypeOf(e)
				if t == nil || len(x.Results) == 1 && func() bool { _, ok := t.(*types.Tuple); return ok }() {
					continue
				}
				if isErr(t) || text(e) == "nil" {
					if text(e) != "nil" {
						emit(e.Pos(), e.End(), "nil", "return nil for error")
					}
					continue
				}
				if z := zero(t); z != "" && z != text(e) {
					emit(e.Pos(), e.End(), z, "return zero")
				}
			}
		case *ast.SliceExpr:
			for _, e := range []ast.Expr{x.Low, x.High} {
				if e != nil {
					emit(e.Pos(), e.End(), "("+text(e)+")+1", "bound")
					emit(e.Pos(), e.End(), "("+text(e)+")-1", "bound")
				}
			}
			if x.Low != nil {
				emit(x.Low.Pos(), x.Low.End(), "", "drop bound")
			}
			if x.High != nil {
				emit(x.High.Pos(), x.High.End(), "", "drop bound")
			}
		case *ast.IndexExpr:
			if b, ok := info.TypeOf(x.Index).(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				emit(x.Index.Pos(), x.Index.End(), "("+text(x.Index)+")-1", "index")
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 2 {
				emit(x.Rhs[0].Pos(), x.Rhs[1].End(), text(x.Rhs[1])+", "+text(x.Rhs[0]), "swap values")
			}
			if x.Tok == token.ADD_ASSIGN {
				emit(x.TokPos, x.TokPos+2, "=", "operator")
			}
			if x.Tok == token.DEFINE {
				// nothing
			}
		case *ast.CompositeLit:
			for i, e := range x.Elts {
				kv, ok := e.(*ast.KeyValueExpr)
				if !ok {
					continue
				}
				end := e.End()
				if i+1 < len(x.Elts) {
					end = x.Elts[i+1].Pos()
				} else if x.Rbrace > end {
					end = x.Rbrace
				}
				emit(e.Pos(), end, "", "drop element")
				for _, e2 := range x.Elts[i+1:] {
					kv2, ok := e2.(*ast.KeyValueExpr)
					if ok && types.Identical(info.TypeOf(kv.Value), info.TypeOf(kv2.Value)) && text(kv.Value) != text(kv2.Value) {
						emit(kv.Value.Pos(), kv2.Value.End(), text(kv2.Value)+string(src[fset.Position(kv.Value.End()).Offset:fset.Position(kv2.Value.Pos()).Offset])+text(kv.Value), "swap elements")
					}
				}
			}
		case *ast.ImportSpec:
			return false
		}
		return true
	})
}

func stmts(list []ast.Stmt) {
	for i, s := range list {
		switch x := s.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.BranchStmt:
			emit(s.Pos(), s.End(), "", "drop statement")
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				emit(s.Pos(), s.End(), "", "drop statement")
			}
		case *ast.IfStmt, *ast.RangeStmt, *ast.ForStmt, *ast.SwitchStmt:
			emit(s.Pos(), s.End(), "", "drop statement")
		case *ast.ReturnStmt:
			if i+1 < len(list) || len(x.Results) == 0 {
				emit(s.Pos(), s.End(), "", "drop statement")
			}
		}
		if i+1 < len(list) {
			switch s.(type) {
			case *ast.ReturnStmt, *ast.DeclStmt:
				continue
			}
			n := list[i+1]
			if _, ok := n.(*ast.ReturnStmt); ok {
				continue
			}
			emit(s.Pos(), n.End(), text(n)+"\n"+text(s), "swap statements")
		}
	}
}

func ident(x *ast.Ident, fn *ast.FuncDecl) {
	o := info.Uses[x]
	if o == nil {
		return
	}
	switch v := o.(type) {
	case *types.Var:
		if v.IsField() || fn == nil || v.Parent() == pkg.Scope() {
			return
		}
		n := 0
		for sc := pkg.Scope().Innermost(x.Pos()); sc != nil && sc != pkg.Scope(); sc = sc.Parent() {
			for _, name := range sc.Names() {
				w, ok := sc.Lookup(name).(*types.Var)
				if !ok || w == v || name == "_" || name == v.Name() || w.Pos() >= x.Pos() || !types.Identical(w.Type(), v.Type()) {
					continue
				}
				if _, o2 := sc.LookupParent(name, x.Pos()); o2 != w {
					continue
				}
				if n++; n <= 3 {
					emit(x.Pos(), x.End(), name, "other variable")
				}
			}
		}
	case *types.Const:
		n := 0
		if v.Parent() != v.Pkg().Scope() {
			return
		}
		for _, name := range v.Pkg().Scope().Names() {
			w, ok := v.Pkg().Scope().Lookup(name).(*types.Const)
			if !ok || w == v || !types.Identical(w.Type(), v.Type()) || constant.Compare(w.Val(), token.EQL, v.Val()) || v.Pkg() != pkg && !w.Exported() {
				continue
			}
			if n++; n <= 3 {
				emit(x.Pos(), x.End(), name, "other constant")
			}
		}
	case *types.Func:
		sig := v.Type().(*types.Signature)
		if sig.Recv() != nil || v.Parent() != v.Pkg().Scope() {
			return
		}
		n := 0
		for _, name := range v.Pkg().Scope().Names() {
			w, ok := v.Pkg().Scope().Lookup(name).(*types.Func)
			if !ok || w == v || !types.Identical(w.Type(), v.Type()) || v.Pkg() != pkg && !w.Exported() || fn != nil && fn.Name.Name == name {
				continue
			}
			if n++; n <= 4 {
				emit(x.Pos(), x.End(), name, "other function")
			}
		}
	}
}

func selector(x *ast.SelectorExpr) {
	s := info.Selections[x]
	if s == nil {
		return
	}
	n := 0
	switch s.Kind() {
	case types.FieldVal:
		t := s.Recv()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if f.Name() != x.Sel.Name && types.Identical(f.Type(), s.Type()) && (f.Exported() || f.Pkg() == pkg) {
				if n++; n <= 3 {
					emit(x.Sel.Pos(), x.Sel.End(), f.Name(), "other field")
				}
			}
		}
	case types.MethodVal:
		ms := types.NewMethodSet(types.NewPointer(s.Recv()))
		if types.IsInterface(s.Recv()) {
			ms = types.NewMethodSet(s.Recv())
		}
		if _, ok := s.Recv().(*types.Pointer); ok {
			ms = types.NewMethodSet(s.Recv())
		}
		for i := 0; i < ms.Len(); i++ {
			m := ms.At(i).Obj()
			if m.Name() != x.Sel.Name && (m.Exported() || m.Pkg() == pkg) && types.Identical(ms.At(i).Type(), s.Type()) {
				if n++; n <= 3 {
					emit(x.Sel.Pos(), x.Sel.End(), m.Name(), "other method")
				}
			}
		}
	}
}

func call(x *ast.CallExpr) {
	if tv, ok := info.Types[x.Fun]; ok && tv.IsType() {
		return
	}
	for i, a := range x.Args {
		for _, b := range x.Args[i+1:] {
			ta, tb := info.TypeOf(a), info.TypeOf(b)
			if ta == nil || tb == nil || !types.Identical(types.Default(ta), types.Default(tb)) || text(a) == text(b) {
				continue
			}
			emit(a.Pos(), b.End(), text(b)+string(src[fset.Position(a.End()).Offset:fset.Position(b.Pos()).Offset])+text(a), "swap arguments")
		}
	}
	t := info.TypeOf(x)
	if t != nil {
		for _, a := range x.Args {
			if ta := info.TypeOf(a); ta != nil && types.Identical(ta, t) && !x.Ellipsis.IsValid() {
				emit(x.Pos(), x.End(), text(a), "argument for call")
			}
		}
		if s, ok := x.Fun.(*ast.SelectorExpr); ok {
			if sel := info.Selections[s]; sel != nil && types.Identical(sel.Recv(), t) {
				emit(x.Pos(), x.End(), text(s.X), "receiver for call")
			}
		}
	}
	if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) > 1 {
		emit(x.Pos(), x.End(), "append("+text(x.Args[0])+"[:0]"+string(src[fset.Position(x.Args[0].End()).Offset:fset.Position(x.End()).Offset]), "append to nothing")
	}
}

func main() {
	dir, _ = filepath.Abs(os.Args[1])
	fset = token.NewFileSet()
	ps, err := packages.Load(&packages.Config{Mode: packages.LoadSyntax, Dir: dir, Fset: fset}, "./...")
	if err != nil {
		panic(err)
	}
	for _, p := range ps {
		pkg, info = p.Types, p.TypesInfo
		for i, f := range p.Syntax {
			name := p.CompiledGoFiles[i]
			if strings.HasSuffix(name, "_test.go") {
				continue
			}
			src, err = os.ReadFile(name)
			if err != nil {
				panic(err)
			}
			fileOf(f)
		}
	}
	fmt.Fprintln(os.Stderr, "done")
}
