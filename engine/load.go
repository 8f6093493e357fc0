package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/muguangyi/ferry"
const hBase = modPath + "/zzverif/"

type Loaded struct {
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package
	fset    *token.FileSet
	repo    string
	methods sync.Map // string -> *ssa.Function
	errStr  types.Type
	rtErr   types.Type
	rtypeT  types.Type
	globals map[*ssa.Global]int
	modPkgs []*packages.Package
}

// overlayFiles maps virtual files below repo to real files below harness.
func overlayFiles(repo, harness string) (map[string]string, error) {
	r := map[string]string{}
	ents, err := os.ReadDir(harness)
	if err != nil {
		return nil, err
	}
	for _, e := range ents {
		if !e.IsDir() {
			continue
		}
		fs, _ := filepath.Glob(filepath.Join(harness, e.Name(), "*.go"))
		for _, f := range fs {
			r[filepath.Join(repo, "zzverif", e.Name(), filepath.Base(f))] = f
		}
	}
	return r, nil
}

func Load(repo, harness string, hpkgs []string) (*Loaded, error) {
	files, err := overlayFiles(repo, harness)
	if err != nil {
		return nil, err
	}
	ov := map[string][]byte{}
	for v, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		ov[v] = b
	}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Overlay: ov,
		Env: append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GO111MODULE=on", "GOWORK=off",
			"CGO_ENABLED=0"),
	}
	var pats []string
	for _, p := range hpkgs {
		pats = append(pats, hBase+p)
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	var mods []*packages.Package
	packages.Visit(ps, nil, func(p *packages.Package) {
		if p.PkgPath == modPath || strings.HasPrefix(p.PkgPath, modPath+"/") {
			mods = append(mods, p)
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	ld := &Loaded{prog: prog, fset: prog.Fset, repo: repo, pkgs: map[string]*ssa.Package{}, modPkgs: mods}
	for _, p := range prog.AllPackages() {
		ld.pkgs[p.Pkg.Path()] = p
	}
	if p := ld.pkgs["errors"]; p != nil {
		ld.errStr = types.NewPointer(p.Type("errorString").Type())
	}
	ld.rtErr = ld.pkgs["runtime"].Type("errorString").Type()
	if p := ld.pkgs["reflect"]; p != nil {
		ld.rtypeT = types.NewPointer(p.Type("rtype").Type())
	}
	return ld, nil
}

func (ld *Loaded) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := ld.fset.Position(p)
	f := q.Filename
	if strings.HasPrefix(f, ld.repo+"/") {
		f = f[len(ld.repo)+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func inModule(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	p := fn.Package()
	if p == nil {
		if o := fn.Origin(); o != nil && o.Package() != nil {
			p = o.Package()
		} else if fn.Object() != nil && fn.Object().Pkg() != nil {
			path := fn.Object().Pkg().Path()
			return path == modPath || (strings.HasPrefix(path, modPath+"/") && !strings.HasPrefix(path, hBase))
		} else {
			return false
		}
	}
	path := p.Pkg.Path()
	return path == modPath || (strings.HasPrefix(path, modPath+"/") && !strings.HasPrefix(path, hBase))
}

func inHarness(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil {
		return fn.Object() != nil && fn.Object().Pkg() != nil && strings.HasPrefix(fn.Object().Pkg().Path(), hBase)
	}
	return strings.HasPrefix(fn.Pkg.Pkg.Path(), hBase)
}

func (ld *Loaded) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	key := t.String() + "." + name
	if pkg != nil && !token.IsExported(name) {
		key = t.String() + "." + pkg.Path() + "." + name
	}
	if f, ok := ld.methods.Load(key); ok {
		return f.(*ssa.Function)
	}
	methodMu.Lock()
	f := ld.prog.LookupMethod(t, pkg, name)
	methodMu.Unlock()
	ld.methods.Store(key, f)
	return f
}

var methodMu sync.Mutex

func jsonStr(v interface{}) string { b, _ := json.Marshal(v); return string(b) }
