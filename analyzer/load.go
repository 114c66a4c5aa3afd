package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/icon-project/btp"

// Program is the type-checked, SSA-built view of /repo's current tree.
type Program struct {
	Dir    string
	Pkgs   []*packages.Package
	SSA    *ssa.Program
	byPth  map[string]*packages.Package
	spkgs  map[string]*ssa.Package
	ifaces []*types.Interface
	funcs  []*ssa.Function // every function of the module with a body (incl. anonymous)
}

func goEnv() []string {
	env := []string{}
	drop := map[string]bool{"GOFLAGS": true, "GOTOOLCHAIN": true, "GOPROXY": true, "CGO_ENABLED": true, "GO111MODULE": true, "GOWORK": true, "HOME": true, "GOMODCACHE": true, "GOCACHE": true}
	for _, e := range os.Environ() {
		k := e
		if i := strings.IndexByte(e, '='); i >= 0 {
			k = e[:i]
		}
		if !drop[k] {
			env = append(env, e)
		}
	}
	return append(env, "HOME=/root", "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "CGO_ENABLED=0", "GOWORK=off",
		"GOMODCACHE=/root/go/pkg/mod", "GOCACHE=/root/.cache/go-build")
}

func LoadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir: dir,
		Env: goEnv(),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Program{Dir: dir, byPth: map[string]*packages.Package{}, spkgs: map[string]*ssa.Package{}}
	for _, pk := range pkgs {
		if !strings.HasPrefix(pk.PkgPath, modPath) {
			continue
		}
		for _, e := range pk.Errors {
			return nil, fmt.Errorf("%s: %v", pk.PkgPath, e)
		}
		p.Pkgs = append(p.Pkgs, pk)
		p.byPth[pk.PkgPath] = pk
	}
	prog, sp := ssautil.Packages(p.Pkgs, ssa.InstantiateGenerics)
	for i, s := range sp {
		if s == nil {
			return nil, fmt.Errorf("no SSA for %s", p.Pkgs[i].PkgPath)
		}
		p.spkgs[p.Pkgs[i].PkgPath] = s
	}
	prog.Build()
	p.SSA = prog
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks != nil && p.inModule(fn) {
			p.funcs = append(p.funcs, fn)
		}
	}
	sortFuncs(p.funcs)
	return p, nil
}

func (p *Program) inModule(fn *ssa.Function) bool {
	pk := fn.Package()
	if pk == nil {
		// wrappers/thunks: decide by object
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), modPath)
		}
		return false
	}
	return strings.HasPrefix(pk.Pkg.Path(), modPath)
}

func rel(path string) string { return modPath + "/" + path }

// Func finds a package-level function by package (module-relative) and name; nil if absent.
func (p *Program) Func(pkg, name string) *ssa.Function {
	s := p.spkgs[rel(pkg)]
	if s == nil {
		return nil
	}
	return s.Func(name)
}

// Method finds a declared method of a named type (pointer or value receiver).
func (p *Program) Method(pkg, typ, name string) *ssa.Function {
	t := p.Type(pkg, typ)
	if t == nil {
		return nil
	}
	return p.MethodOf(t, name)
}

func (p *Program) MethodOf(t types.Type, name string) *ssa.Function {
	if n, ok := t.(*types.Named); ok {
		for i := 0; i < n.NumMethods(); i++ {
			if n.Method(i).Name() == name {
				return p.SSA.FuncValue(n.Method(i))
			}
		}
	}
	ms := p.SSA.MethodSets.MethodSet(types.NewPointer(t))
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.SSA.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (p *Program) Type(pkg, name string) types.Type {
	s := p.spkgs[rel(pkg)]
	if s == nil {
		return nil
	}
	o := s.Pkg.Scope().Lookup(name)
	if tn, ok := o.(*types.TypeName); ok {
		return tn.Type()
	}
	return nil
}

// Impls returns the named module types declared in pkg (module-relative, "" = everywhere)
// whose pointer type implements iface.
func (p *Program) Impls(pkgs []string, iface *types.Interface) []*types.Named {
	var out []*types.Named
	in := map[string]bool{}
	for _, q := range pkgs {
		in[rel(q)] = true
	}
	for _, pk := range p.Pkgs {
		if len(pkgs) > 0 && !in[pk.PkgPath] {
			continue
		}
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(nt) {
				continue
			}
			if types.Implements(types.NewPointer(nt), iface) {
				out = append(out, nt)
			}
		}
	}
	return out
}

func (p *Program) Iface(pkg, name string) *types.Interface {
	t := p.Type(pkg, name)
	if t == nil {
		return nil
	}
	i, _ := t.Underlying().(*types.Interface)
	return i
}

func (p *Program) posOf(fn *ssa.Function) string {
	pos := p.SSA.Fset.Position(fn.Pos())
	return strings.TrimPrefix(pos.Filename, p.Dir+"/") + fmt.Sprintf(":%d", pos.Line)
}

func short(s string) string {
	return strings.ReplaceAll(s, modPath+"/", "")
}
