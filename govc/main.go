package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func main() {
	if len(os.Args) > 2 && os.Args[1] == "task" {
		taskMain(os.Args[2])
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "check" {
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(checkMain(os.Args[2], tier))
	}
	if len(os.Args) > 2 && os.Args[1] == "try" {
		repo, specs := "/repo", "/verif/specs"
		if r := os.Getenv("GOVC_REPO"); r != "" {
			repo = r
		}
		if s := os.Getenv("GOVC_SPECS"); s != "" {
			specs = s
		}
		p, err := loadRepo(repo, readOverlay(repo, specs))
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, n := range os.Args[2:] {
			pk := "sign"
			if i := strings.Index(n, ":"); i > 0 {
				pk, n = n[:i], n[i+1:]
			}
			r := p.run(Task{Pkg: pk, Fn: n, Panics: os.Getenv("PANICS") != "", NoContracts: strings.Fields(os.Getenv("NOCON")), Coarse: os.Getenv("COARSE") != ""})
			fmt.Printf("%s: %v paths=%d unsup=%q covers=%v solver=%+v\n", n, r.Dur, r.Paths, r.Unsup, r.Covers, r.X.s.st)
			for _, o := range r.Obls {
				fmt.Printf("  %s n=%d by=%v failed=%v %s\n", o.Name, o.N, o.By, o.Failed, o.Pos)
				if o.Failed {
					fmt.Println(o.Fail, o.Model)
				}
			}
		}
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "externs" {
		p, err := loadRepo("/repo", nil)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		x := &Exec{}
		m := map[string]map[string]bool{}
		for fn := range ssautil.AllFunctions(p.prog) {
			if fn.Pkg == nil || !x.inlinePkg(fn.Pkg.Pkg.Path()) {
				continue
			}
			pp := fn.Pkg.Pkg.Path()
			if pp != modPath+"sign" && pp != modPath+"src" && pp != modPath+"internal/pb" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					k := ""
					if c.Common().IsInvoke() {
						k = "invoke " + c.Common().Method.FullName()
					} else if f := c.Common().StaticCallee(); f != nil {
						if x.inlineable(f) {
							continue
						}
						k = f.String()
					} else {
						continue
					}
					if m[k] == nil {
						m[k] = map[string]bool{}
					}
					m[k][fnName(fn)] = true
				}
			}
		}
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Print(k, "   <-")
			n := 0
			for f := range m[k] {
				if n++; n < 4 {
					fmt.Print(" ", f)
				}
			}
			fmt.Println()
		}
	}
}
