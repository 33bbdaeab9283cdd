package main

import (
	"fmt"
	"go/token"
	"os"
	"sort"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/opencoff/sigtool/"

type Program struct {
	prog  *ssa.Program
	fset  *token.FileSet
	pkgs  map[string]*ssa.Package
	names []string
	pk    []*packages.Package
}

// load the real packages plus overlay files (path -> contents)
func loadRepo(repo string, overlay map[string][]byte) (*Program, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Fset:    fset,
		Overlay: overlay,
		Env:     os.Environ(),
	}
	ps, err := packages.Load(cfg, "./sign", "./src", "./internal/pb")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, sp := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	r := &Program{prog: prog, fset: fset, pkgs: map[string]*ssa.Package{}, pk: ps}
	for i, p := range sp {
		if p != nil {
			r.pkgs[ps[i].PkgPath] = p
		}
	}
	for k := range r.pkgs {
		r.names = append(r.names, k)
	}
	sort.Strings(r.names)
	return r, nil
}
