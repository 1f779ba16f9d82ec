package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoModule = "github.com/yahoojapan/athenz-authorizer/v5"
const vfPkg = repoModule + "/internal/vf"

// package initialisers that only start machinery the engine replaces
var skipInit = map[string]bool{
	"github.com/kpango/fastime": true,
	"github.com/kpango/glg":     true,
	"runtime":                   true,
	"os":                        true,
	"syscall":                   true,
	"internal/poll":             true,
	"net":                       true,
	"reflect":                   true,
	"time":                      false,
}

type Program struct {
	prog        *ssa.Program
	fset        *token.FileSet
	pkgs        map[string]*ssa.Package
	runtimeErrT types.Type
	errorsStrT  types.Type
	mu          sync.Mutex
	loaded      []*packages.Package
	lookCache   sync.Map
}

var repoDir = "/repo"

func trimRepo(f string) string {
	if r, err := filepath.Rel(repoDir, f); err == nil && !strings.HasPrefix(r, "..") {
		return r
	}
	return f
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOWORK", "GO111MODULE":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
}

// Load type-checks the real packages (with the harness files overlaid) and builds SSA.
func Load(overlay map[string][]byte, patterns []string, modfile string) (*Program, error) {
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        repoDir,
		Env:        goEnv(),
		Overlay:    overlay,
		BuildFlags: []string{"-modfile=" + modfile, "-tags=purego"},
		Fset:       token.NewFileSet(),
	}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, repoModule) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, fset: cfg.Fset, pkgs: map[string]*ssa.Package{}, loaded: ps}
	for _, sp := range prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
	}
	if rt := p.pkgs["runtime"]; rt != nil {
		if t := rt.Type("errorString"); t != nil {
			p.runtimeErrT = t.Type()
		}
	}
	if es := p.pkgs["errors"]; es != nil {
		if t := es.Type("errorString"); t != nil {
			p.errorsStrT = types.NewPointer(t.Type())
		}
	}
	if p.runtimeErrT == nil || p.errorsStrT == nil {
		return nil, fmt.Errorf("load: runtime types missing")
	}
	return p, nil
}

func (p *Program) fn(pkg, name string) *ssa.Function {
	sp := p.pkgs[pkg]
	if sp == nil {
		panic(unsupported("package " + pkg + " not loaded"))
	}
	f := sp.Func(name)
	if f == nil {
		panic(unsupported("no function " + pkg + "." + name))
	}
	return f
}

func (p *Program) typ(pkg, name string) types.Type {
	sp := p.pkgs[pkg]
	if sp == nil {
		panic(unsupported("package " + pkg + " not loaded"))
	}
	t := sp.Type(name)
	if t == nil {
		panic(unsupported("no type " + pkg + "." + name))
	}
	return t.Type()
}

type lookKey struct {
	t    types.Type
	pkg  *types.Package
	name string
}

// lookupMethod returns the implementation of a method in t's method set.
func (p *Program) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	k := lookKey{t, pkg, name}
	if f, ok := p.lookCache.Load(k); ok {
		return f.(*ssa.Function)
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	var f *ssa.Function
	if pkg == nil && !token.IsExported(name) {
		return nil
	}
	if sel := p.prog.MethodSets.MethodSet(t).Lookup(pkg, name); sel != nil {
		f = p.prog.MethodValue(sel)
	}
	p.lookCache.Store(k, f)
	return f
}
