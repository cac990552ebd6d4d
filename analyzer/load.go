package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is one build variant of the package under analysis, in SSA form.
type Program struct {
	Variant string
	Prog    *ssa.Program
	Pkg     *ssa.Package
	PP      *packages.Package
	Funcs   []*ssa.Function // every source function of the package, closures included
}

// repoDir is the Go module under analysis.
func repoDir() string {
	if d := os.Getenv("SRL_REPO"); d != "" {
		return d + "/Go/sereal"
	}
	return "/repo/Go/sereal"
}

// load type-checks the package from source under the given build tags and
// builds its SSA form.
func load(variant string) (*Program, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  repoDir(),
		Env:  env,
	}
	if variant != "default" {
		cfg.BuildFlags = []string{"-tags=" + variant}
	}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(pkgs) != 1 {
		return nil, fmt.Errorf("expected one package, got %d", len(pkgs))
	}
	pp := pkgs[0]
	if len(pp.Errors) > 0 {
		return nil, fmt.Errorf("%s: %v", variant, pp.Errors[0])
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Program{Variant: variant, Prog: prog, PP: pp}
	p.Pkg = prog.Package(pp.Types)
	p.Pkg.Build()
	p.collect()
	return p, nil
}

func (p *Program) collect() {
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		p.Funcs = append(p.Funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, m := range p.Pkg.Members {
		switch m := m.(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			n, ok := m.Type().(*types.Named)
			if !ok {
				continue
			}
			for i := 0; i < n.NumMethods(); i++ {
				add(p.Prog.FuncValue(n.Method(i)))
			}
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool { return p.less(p.Funcs[i], p.Funcs[j]) })
}

// less orders functions by their position in the source.
func (p *Program) less(a, b *ssa.Function) bool {
	x, y := p.Prog.Fset.Position(a.Pos()), p.Prog.Fset.Position(b.Pos())
	if x.Filename != y.Filename {
		return x.Filename < y.Filename
	}
	return x.Offset < y.Offset
}

func (p *Program) inPkg(f *ssa.Function) bool {
	for f != nil && f.Parent() != nil {
		f = f.Parent()
	}
	return f != nil && f.Pkg == p.Pkg && f.Blocks != nil
}

// fname is a stable short name of a function: (*Decoder).decode, readHeader.
func fname(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	s := f.RelString(nil)
	if f.Pkg != nil {
		s = f.RelString(f.Pkg.Pkg)
	} else if f.Parent() != nil {
		r := f
		for r.Parent() != nil {
			r = r.Parent()
		}
		if r.Pkg != nil {
			s = f.RelString(r.Pkg.Pkg)
		}
	}
	return strings.ReplaceAll(s, " ", "")
}
