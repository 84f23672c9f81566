package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func load(dir string, pats ...string) (*Prog, error) {
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        dir,
		BuildFlags: []string{"-tags=purego,math_big_pure_go", "-mod=mod"},
		Env:        append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=", "GOPROXY=off", "GOWORK=off"),
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	nerr := 0
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, "load:", e)
			nerr++
		}
	})
	if nerr > 0 {
		return nil, fmt.Errorf("%d load errors", nerr)
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	return NewProg(prog), nil
}

func main() {
	var (
		id      = flag.String("id", "", "property id")
		tier    = flag.String("tier", "quick", "quick or thorough")
		only    = flag.String("harness", "", "run only this harness")
		dir     = flag.String("dir", "/verif/harness", "harness module")
		out     = flag.String("evidence", "", "evidence file")
		prof    = flag.String("prof", "", "cpu profile")
		nw      = flag.Int("j", 8, "workers")
		budget  = flag.Int("budget", 0, "seconds")
		noMerge = flag.Bool("nomerge", false, "disable merging")
	)
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	c := &Check{ID: *id, Tier: *tier, Only: *only, Dir: *dir, Evidence: *out, Workers: *nw, Budget: *budget, NoMerge: *noMerge, t0: t0}
	code := c.Run()
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}
