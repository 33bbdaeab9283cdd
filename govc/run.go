package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Task is one verification run: a harness (specification) function executed symbolically
type Task struct {
	Pkg         string // "sign", "src", "internal/pb"
	Fn          string
	Panics      bool // run-time panics are obligations
	Opaque      []string
	Coarse      bool // take the first loop invariant found
	NoContracts []string
	Budget      time.Duration
	Files       []string // specification files zz_verif_<name>.go
	Cover       []string // points that must be reachable
	Weight      int
	Thorough    bool // only in the thorough tier
}

type TaskResult struct {
	Task   Task
	Unsup  string
	Obls   []*Obl
	Covers map[string]bool
	X      *Exec
	Dur    time.Duration
	Paths  int
	Failed []*Obl
}

func newExec(p *Program, budget time.Duration) *Exec {
	return &Exec{
		prog: p.prog, fset: p.fset, s: NewSolver(),
		elemOf: map[int]*Term{}, gobj: map[*ssa.Global]int{}, obls: map[string]*Obl{},
		funcs: map[string]int{}, contracts: map[string]*Contract{}, usedContracts: map[string]int{}, noContract: map[string]bool{},
		trusted: map[string]int{}, assumed: map[string]int{}, loops: map[string]int{},
		deadline: time.Now().Add(budget), sentinel: map[string]*Term{}, covers: map[string]bool{},
		opaquePk: map[string]bool{}, loopInfo: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{},
		sizes: types.SizesFor("gc", "amd64"),
	}
}

func (p *Program) run(t Task) (res *TaskResult) {
	t0 := time.Now()
	res = &TaskResult{Task: t}
	x := newExec(p, t.budget())
	res.X = x
	defer x.s.Close()
	defer func() {
		if e := recover(); e != nil {
			switch y := e.(type) {
			case Unsup:
				res.Unsup = y.msg
			case SplitReq:
				res.Unsup = "unresolved case distinction on " + y.cond.String()
			default:
				res.Unsup = fmt.Sprintf("internal error: %v", e)
				if os.Getenv("GOVC_TRACE") != "" {
					fmt.Println(string(debug.Stack()))
				}
			}
		}
		res.Obls = x.sortedObls()
		for _, o := range res.Obls {
			if o.Failed {
				res.Failed = append(res.Failed, o)
			}
		}
		res.Covers = x.covers
		res.Dur = time.Since(t0)
	}()
	x.panicsOn = t.Panics
	for _, o := range t.Opaque {
		x.opaquePk[modPath+o] = true
	}
	for _, o := range t.NoContracts {
		x.noContract[o] = true
	}
	x.coarse = t.Coarse
	pkg := p.pkgs[modPath+t.Pkg]
	if pkg == nil {
		res.Unsup = "package " + t.Pkg + " not loaded"
		return
	}
	fn := pkg.Func(t.Fn)
	if fn == nil {
		res.Unsup = "specification " + t.Fn + " does not bind to the code"
		return
	}
	x.root = t.Fn
	x.goContracts = goContracts(pkg)
	x.harness = pkg
	st := &State{objs: map[int]*Obj{}}
	out := x.callFn(st, fn, nil, nil, fn.Pos(), 0)
	res.Paths = len(out)
	return
}

func readOverlay(repo, specs string) map[string][]byte {
	ov := map[string][]byte{}
	filepath.Walk(specs, func(path string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasPrefix(filepath.Base(path), "zz_verif_") && strings.HasSuffix(path, ".go") {
			rel, _ := filepath.Rel(specs, path)
			b, err := os.ReadFile(path)
			if err == nil {
				ov[filepath.Join(repo, rel)] = b
			}
		}
		return nil
	})
	return ov
}

// Contracts written in the specification language: ct_<package>_<Function> or
// ct_<package>_<Type>_<Method> is executed in place of the function it is named after.
var ctPkgs = map[string]string{
	"sign": modPath + "sign", "main": modPath + "src", "fio": "github.com/opencoff/go-fio", "utils": "github.com/opencoff/go-utils",
	"flag": "github.com/opencoff/pflag", "ioutil": "io/ioutil", "filepath": "path/filepath",
}

func goContracts(pkg *ssa.Package) map[string]*ssa.Function {
	r := map[string]*ssa.Function{}
	for n, m := range pkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok || !strings.HasPrefix(n, "ct_") {
			continue
		}
		w := strings.Split(n, "_")
		p := w[1]
		if q := ctPkgs[p]; q != "" {
			p = q
		}
		switch len(w) {
		case 3:
			r[p+"."+w[2]] = f
		case 4:
			r["(*"+p+"."+w[2]+")."+w[3]] = f
		}
	}
	return r
}
