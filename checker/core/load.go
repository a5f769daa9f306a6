// Package core loads the analysed program and collects findings.
package core

import (
	"embed"
	"fmt"
	"go/token"
	"go/types"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Mod is the module path of the analysed program.
const Mod = "github.com/UoY-RoboStar/rtcg"

// Program is the type-checked program with its SSA form.
type Program struct {
	SpecErrs []string // why some references are missing
	Dir      string
	Pkgs     []*packages.Package
	ByID     map[string]*packages.Package
	Prog     *ssa.Program
	SSA      map[string]*ssa.Package
	Files    int
}

//go:embed spec selftest
var specs embed.FS

//go:embed stubs
var stubs embed.FS

// WriteStubs writes the C++ stubs into a directory.
func WriteStubs(dir string) error {
	return fs.WalkDir(stubs, "stubs", func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		to := filepath.Join(dir, filepath.FromSlash(strings.TrimPrefix(p, "stubs")))
		if d.IsDir() {
			return os.MkdirAll(to, 0o755)
		}
		b, err := stubs.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(to, b, 0o644)
	})
}

// SelfTest, if set, is loaded instead of the reference functions.
var SelfTest bool

// IsSpec reports whether a package holds reference functions.
func IsSpec(path string) bool { return strings.HasPrefix(path, full("internal/"+SpecPkg)) }

// Spec finds a reference function.
func (p *Program) Spec(name string) (f *ssa.Function) {
	for path, s := range p.SSA {
		if IsSpec(path) {
			if g := s.Func(name); g != nil {
				if f != nil {
					panic("two references are called " + name)
				}
				f = g
			}
		}
	}
	return f
}

// SpecPkg is the name of the package of reference functions that is added to the program in memory.
const SpecPkg = "verifspec"

// Load loads the module in dir, with or without the reference functions.
func Load(dir string, withSpec bool) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes |
			packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedDeps | packages.NeedEmbedFiles | packages.NeedEmbedPatterns | packages.NeedModule,
		Dir: dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0"),
	}
	cfg.Env = append(cfg.Env, "GOFLAGS=")
	if withSpec {
		cfg.Overlay = map[string][]byte{}
		dirName := "spec"
		if SelfTest {
			dirName = "selftest"
		}
		es, err := specs.ReadDir(dirName)
		if err != nil {
			return nil, err
		}
		for _, e := range es {
			b, err := specs.ReadFile(dirName + "/" + e.Name())
			if err != nil {
				return nil, err
			}
			name := strings.TrimSuffix(e.Name(), ".txt")
			cfg.Overlay[filepath.Join(dir, "internal", SpecPkg, strings.TrimSuffix(name, ".go"), name)] = b
		}
	}
	// dependencies come from export data
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if more := unrotate(pkgs, cfg.Overlay); len(more) > 0 {
		old := cfg.Overlay
		cfg.Overlay = more
		for k, v := range old {
			if more[k] == nil {
				more[k] = v
			}
		}
		if again, err := packages.Load(cfg, "./..."); err == nil && !broken(again) {
			pkgs = again
		}
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	p := &Program{Dir: dir, ByID: map[string]*packages.Package{}, SSA: map[string]*ssa.Package{}}
	var errs []string
	all := pkgs
	pkgs = nil
	for _, q := range all {
		if IsSpec(q.PkgPath) && len(q.Errors) > 0 {
			// these references no longer fit the program; the checks that need them will say so
			for _, e := range q.Errors {
				if e.Kind != packages.TypeError {
					continue
				}
				p.SpecErrs = append(p.SpecErrs, e.Error())
			}
			continue
		}
		pkgs = append(pkgs, q)
		for _, e := range q.Errors {
			errs = append(errs, e.Error())
		}
		p.ByID[q.PkgPath] = q
		p.Files += len(q.CompiledGoFiles)
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the program does not load: %s", strings.Join(errs, "; "))
	}
	p.Pkgs = pkgs
	prog, ssapkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.Prog = prog
	for i, q := range pkgs {
		if ssapkgs[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", q.PkgPath)
		}
		p.SSA[q.PkgPath] = ssapkgs[i]
	}
	return p, nil
}

// broken tells whether packages other than the references have errors.
func broken(ps []*packages.Package) bool {
	for _, q := range ps {
		if !IsSpec(q.PkgPath) && len(q.Errors) > 0 {
			return true
		}
	}
	return false
}

// InModule reports whether a package is part of the analysed module.
func (p *Program) InModule(path string) bool {
	_, ok := p.ByID[path]
	return ok
}

// Func finds a package-level function; path is relative to the module.
func (p *Program) Func(path, name string) *ssa.Function {
	if s := p.SSA[full(path)]; s != nil {
		return s.Func(name)
	}
	return nil
}

// Type finds a named type.
func (p *Program) Type(path, name string) types.Type {
	if q := p.ByID[full(path)]; q != nil {
		if o := q.Types.Scope().Lookup(name); o != nil {
			return o.Type()
		}
	}
	return nil
}

func full(path string) string {
	if path == "" {
		return Mod
	}
	return Mod + "/" + path
}

// Method finds a method of a named type or of its pointer.
func (p *Program) Method(path, typ, name string) *ssa.Function {
	t := p.Type(path, typ)
	if t == nil {
		return nil
	}
	return p.MethodOf(t, name)
}

// MethodOf finds a method of t or *t.
func (p *Program) MethodOf(t types.Type, name string) *ssa.Function {
	for _, x := range []types.Type{t, types.NewPointer(t)} {
		if n, ok := t.(*types.Named); ok {
			if sel := p.Prog.MethodSets.MethodSet(x).Lookup(n.Obj().Pkg(), name); sel != nil {
				f := p.Prog.MethodValue(sel)
				return f
			}
		}
	}
	return nil
}

// Rel makes a file name relative to the program's directory.
func (p *Program) Rel(file string) string {
	if r, err := filepath.Rel(p.Dir, file); err == nil {
		return r
	}
	return file
}

// TypeName is a type's name without package paths.
func TypeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// Packages lists the packages of the module.
func (p *Program) Packages() (ps []*ssa.Package) {
	for _, x := range p.Prog.AllPackages() {
		if x != nil && p.InModule(x.Pkg.Path()) {
			ps = append(ps, x)
		}
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].Pkg.Path() < ps[j].Pkg.Path() })
	return ps
}

// Funcs lists the functions of the module that have bodies, instances of generic functions and function literals included, reference functions excepted.
func (p *Program) Funcs() (fs []*ssa.Function) {
	for f := range ssautil.AllFunctions(p.Prog) {
		if f.Blocks == nil || f.Synthetic != "" && f.Origin() == nil && f.Name() != "init" {
			continue
		}
		path := PkgPath(f)
		if p.InModule(path) && !IsSpec(path) {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool {
		if a, b := fs[i].String(), fs[j].String(); a != b {
			return a < b
		}
		return fs[i].Pos() < fs[j].Pos()
	})
	return fs
}

// PkgPath is the path of the package that declares a function.
func PkgPath(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}

// Pkg finds a package.
func (p *Program) Pkg(path string) *ssa.Package { return p.SSA[full(path)] }

// Pos renders a position.
func (p *Program) Pos(pos token.Pos) string {
	q := p.Prog.Fset.Position(pos)
	if !q.IsValid() {
		return ""
	}
	return fmt.Sprintf("%s:%d", p.Rel(q.Filename), q.Line)
}
