package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var prog *ssa.Program
var harnessPkg = map[string]*ssa.Package{}
var repoPrefix = "github.com/zyedidia/generic"

func loadProgram(dir string, names []string) error {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax, Dir: dir,
		Env: os.Environ(),
	}
	var pats []string
	for _, n := range names {
		pats = append(pats, "./h/"+n)
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, repoPrefix) || strings.HasPrefix(p.PkgPath, "verif/") {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	p, ipkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog = p
	prog.Build()
	for _, ip := range ipkgs {
		if ip != nil {
			harnessPkg[filepath.Base(ip.Pkg.Path())] = ip
		}
	}
	return nil
}

func findHarness(name string) (*ssa.Function, error) {
	i := strings.Index(name, ".")
	pkg := harnessPkg[name[:i]]
	if pkg == nil {
		return nil, fmt.Errorf("no harness package %q", name[:i])
	}
	f := pkg.Func(name[i+1:])
	if f == nil {
		return nil, fmt.Errorf("no harness function %q", name)
	}
	return f, nil
}

func isRepoFn(f *ssa.Function) bool {
	if p := fnPkg(f); p != nil {
		return strings.HasPrefix(p.Path(), repoPrefix)
	}
	return false
}

func fnPkg(f *ssa.Function) *types.Package {
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if o := f.Origin(); o != nil && o != f {
		return fnPkg(o)
	}
	if o := f.Object(); o != nil {
		return o.Pkg()
	}
	if f.Parent() != nil {
		return fnPkg(f.Parent())
	}
	return nil
}
