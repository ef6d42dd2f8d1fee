package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	repoDir    = "/repo"
	modulePath = "github.com/aboukirev/ouro"
)

// program is the loaded repository.
type program struct {
	prog *ssa.Program
	pkgs map[string]*ssa.Package // by path relative to the module
	mod  []*packages.Package
	srcs []*ssa.Function // functions of the module with bodies
}

func load() (*program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Tests: false,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("package %s: %v", p.PkgPath, e)
		}
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	r := &program{prog: prog, pkgs: map[string]*ssa.Package{}, mod: pkgs}
	for _, p := range pkgs {
		if !strings.HasPrefix(p.PkgPath, modulePath) {
			continue
		}
		r.pkgs[strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, modulePath), "/")] = prog.Package(p.Types)
	}
	for f := range ssautil.AllFunctions(prog) {
		if isModule(f) && len(f.Blocks) > 0 {
			r.srcs = append(r.srcs, f)
		}
	}
	sort.Slice(r.srcs, func(i, j int) bool {
		if r.srcs[i].Pos() != r.srcs[j].Pos() {
			return r.srcs[i].Pos() < r.srcs[j].Pos()
		}
		return r.srcs[i].String() < r.srcs[j].String()
	})
	return r, nil
}

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(6 << 30)
	if d := os.Getenv("OUROFLOW_REPO"); d != "" {
		repoDir = d
	}
	if d := os.Getenv("OUROFLOW_OUT"); d != "" {
		verifDir = d
	}
	debugOb = os.Getenv("OUROFLOW_DEBUG") != ""
	debugCover = os.Getenv("OUROFLOW_COVER") != ""
	debugLoops = os.Getenv("OUROFLOW_LOOPS") != ""
	if len(os.Args) > 2 && os.Args[1] == "check" {
		code := 0
		ids := os.Args[2:]
		if ids[0] == "all" {
			ids = nil
			for id := range checks {
				ids = append(ids, id)
			}
			sort.Strings(ids)
		}
		for _, id := range ids {
			if r := runCheck(id); r > code {
				code = r
			}
		}
		os.Exit(code)
	}
	if len(os.Args) > 1 && os.Args[1] == "calls" {
		p, err := load()
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		set := map[string]int{}
		for _, f := range p.srcs {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					if c, ok := i.(ssa.CallInstruction); ok {
						if s := c.Common().StaticCallee(); s != nil && isModule(s) {
							continue
						}
						set[calleeName(c.Common())]++
					}
				}
			}
		}
		var ks []string
		for k := range set {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println(set[k], k)
		}
		return
	}
}
