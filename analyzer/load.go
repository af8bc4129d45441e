package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Module path of the analysed program.
const modPath = "github.com/rdimitrov/go-tuf-metadata"

// Program is the loaded and type-checked repository with its SSA form.
type Program struct {
	repo  string
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package // by import path, module packages only
	tpkgs map[string]*packages.Package
	fset  *token.FileSet
	files int
}

// inlinedPkgs are packages some of whose functions are analysed from their
// source like the module's own: those of inlinedFuncs.
var inlinedPkgs = []string{"slices", "golang.org/x/exp/slices"}

var inlinedFuncs = map[string]bool{
	"slices.IndexFunc": true, "slices.ContainsFunc": true,
	"golang.org/x/exp/slices.IndexFunc": true, "golang.org/x/exp/slices.ContainsFunc": true,
}

func loadProgram(repo string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo |
			packages.NeedDeps | packages.NeedExportFile | packages.NeedModule,
		Dir: repo,
		Env: append(os.Environ(), "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GOTOOLCHAIN=local"),
	}
	cfg.Mode &^= packages.NeedDeps // dependencies from export data
	initial, err := packages.Load(cfg, append([]string{"./..."}, inlinedPkgs...)...)
	if err != nil {
		return nil, err
	}
	var errs []string
	var keep []*packages.Package
	for _, p := range initial {
		own := p.PkgPath == modPath || strings.HasPrefix(p.PkgPath, modPath+"/")
		for _, e := range p.Errors {
			if own {
				errs = append(errs, e.Error())
			}
		}
		if own || len(p.Errors) == 0 {
			keep = append(keep, p)
		}
	}
	initial = keep
	if len(errs) > 0 {
		sort.Strings(errs)
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, pkgs := ssautil.Packages(initial, ssa.InstantiateGenerics)
	P := &Program{repo: repo, prog: prog, pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*packages.Package{}, fset: prog.Fset}
	for i, p := range pkgs {
		if !P.inModule(initial[i].Types) {
			continue
		}
		if p == nil {
			return nil, fmt.Errorf("no SSA for %s", initial[i].PkgPath)
		}
		P.pkgs[initial[i].PkgPath] = p
		P.tpkgs[initial[i].PkgPath] = initial[i]
		P.files += len(initial[i].Syntax)
	}
	prog.Build()
	return P, nil
}

func (P *Program) inModule(pkg *types.Package) bool {
	return pkg != nil && (pkg.Path() == modPath || strings.HasPrefix(pkg.Path(), modPath+"/"))
}

// pos renders a position relative to the repository.
func (P *Program) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := P.fset.Position(p)
	rel, err := filepath.Rel(P.repo, q.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = filepath.Base(q.Filename)
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// pkg returns a module package by its path relative to the module.
func (P *Program) pkg(rel string) *ssa.Package {
	p := P.pkgs[modPath+"/"+rel]
	if p == nil {
		fail("anchor", "package %s not found", rel)
	}
	return p
}

// fn returns a package-level function.
func (P *Program) fn(rel, name string) *ssa.Function {
	f := P.pkg(rel).Func(name)
	if f == nil {
		fail("anchor", "function %s.%s not found", rel, name)
	}
	return f
}

// namedType returns a package-level named type; for generic types targ names the type argument.
func (P *Program) namedType(rel, name string, targ ...string) types.Type {
	o := P.pkg(rel).Pkg.Scope().Lookup(name)
	if o == nil {
		fail("anchor", "type %s.%s not found", rel, name)
	}
	t := o.Type()
	if len(targ) > 0 {
		var ta []types.Type
		for _, n := range targ {
			ta = append(ta, P.namedType(rel, n))
		}
		it, err := types.Instantiate(nil, t, ta, true)
		if err != nil {
			fail("anchor", "cannot instantiate %s.%s: %v", rel, name, err)
		}
		return it
	}
	return t
}

// method returns the method of *T (or T) with the given name.
func (P *Program) method(t types.Type, name string) *ssa.Function {
	for _, tt := range []types.Type{types.NewPointer(t), t} {
		ms := P.prog.MethodSets.MethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			s := ms.At(i)
			if s.Obj().Name() == name {
				f := P.prog.MethodValue(s)
				if f == nil {
					continue
				}
				// unwrap the synthetic pointer wrapper of a value method
				if f.Synthetic != "" && len(f.Blocks) > 0 && types.Identical(tt, types.NewPointer(t)) {
					if _, ok := tt.(*types.Pointer); ok {
						ms2 := P.prog.MethodSets.MethodSet(t)
						for j := 0; j < ms2.Len(); j++ {
							if ms2.At(j).Obj() == s.Obj() {
								if g := P.prog.MethodValue(ms2.At(j)); g != nil {
									return g
								}
							}
						}
					}
				}
				return f
			}
		}
	}
	fail("anchor", "method %s of %s not found", name, t)
	return nil
}

// methodIf returns the method that T itself declares, or nil.
func (P *Program) methodIf(t *types.Named, name string) *ssa.Function {
	for i := 0; i < t.NumMethods(); i++ {
		if t.Method(i).Name() == name {
			return P.method(t, name)
		}
	}
	return nil
}

// moduleFuncs lists every function of the module with a body, including
// methods, closures and instantiations.
func (P *Program) moduleFuncs() []*ssa.Function {
	var out []*ssa.Function
	for f := range ssautil.AllFunctions(P.prog) {
		if len(f.Blocks) == 0 {
			continue
		}
		if P.inModule(funcPkg(f)) {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func funcPkg(f *ssa.Function) *types.Package {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return g.Pkg.Pkg
		}
		if o := g.Object(); o != nil {
			return o.Pkg()
		}
		if o := g.Origin(); o != nil {
			if o.Pkg != nil {
				return o.Pkg.Pkg
			}
		}
	}
	return nil
}

// failure is a condition under which the analysis gives no verdict; it is
// reported as a violation, never swallowed.
type failure struct{ rule, msg string }

func fail(rule, format string, args ...any) {
	panic(failure{rule, fmt.Sprintf(format, args...)})
}
